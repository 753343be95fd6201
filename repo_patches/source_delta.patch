From 544e538c10d587f518208e12fad72fc9439cc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 001/162] fix: select the entry restriction with the most
 recent introduced version

The difference returned by dc_version_compare mixes major and minor, so a
restriction introduced in 1.9 could win over one introduced in 2.0.
---
 lib/context_restriction.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..8046842 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1264,9 +1264,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_introduced = NULL;
+    struct disir_version *max_introduced = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1358,24 +1357,26 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // The most recently introduced entry is the one in force
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_introduced == NULL ||
+                 dc_version_compare (&entry->re_introduced, min_introduced) > 0))
             {
-                min_closes_match = diff;
+                min_introduced = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                     (max_introduced == NULL ||
+                      dc_version_compare (&entry->re_introduced, max_introduced) > 0))
             {
-                max_closes_match = diff;
+                max_introduced = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From 6f77d3a0dbb36d8241f4059a1e2093d657e4f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 002/162] fix: dc_version_compare overflows for components that
 differ by more than 2^31

---
 lib/util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..55b8be3 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -91,9 +91,10 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 
     res = 0;
 
-    res = s1->sv_major - s2->sv_major;
-    if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+    if (s1->sv_major != s2->sv_major)
+        res = (s1->sv_major < s2->sv_major) ? -1 : 1;
+    else if (s1->sv_minor != s2->sv_minor)
+        res = (s1->sv_minor < s2->sv_minor) ? -1 : 1;
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From 6355c2d124458c14e1d15a6da681e587ba012b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 003/162] fix: dc_version_convert silently wraps numbers that
 do not fit a version component

---
 lib/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 55b8be3..57638f9 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -148,6 +148,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "major out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -159,6 +164,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "minor out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From b0ea5090573200ec335f0efc1d0f854d9f50a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 004/162] fix: an entry with only a zero minimum keeps the
 default maximum of one

The default maximum was compared with the minimum before it was set, so a
minimum of zero turned it into zero, which means unlimited.
---
 lib/context_restriction.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 8046842..51622de 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1382,13 +1382,7 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         }
     });
 
-    // Set max.
     // Maximum default is 1.
-    // if minimum is set, and the active maximum is lower, it will equal the minimum.
-    if (max != 0 && max < min)
-    {
-        max = min;
-    }
     if (max == -1)
     {
         max = 1;
@@ -1400,6 +1394,12 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         min = 1;
     }
 
+    // If the active maximum is lower than the minimum, it will equal the minimum.
+    if (max != 0 && max < min)
+    {
+        max = min;
+    }
+
     // If the current element we are comparing was introduced after our target version,
     // we bail out
     if (element_introduced && dc_version_compare (element_introduced, version) > 0)
-- 
2.43.0


From d617c4876858cf3304ac849e9c5c59f347904d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 005/162] fix: an enum keyval or enum restriction without a
 value crashes validation

---
 lib/context_restriction.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 51622de..5c68845 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1186,7 +1186,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            if (string_value != NULL && entry->re_value_string != NULL &&
+                strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
-- 
2.43.0


From 39ede75f5ffa7e316327b8da9276c24779ca708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 006/162] fix: a finalized parent accepts a section with
 invalid elements

---
 lib/context_section.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..4181f3c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -121,6 +121,15 @@ dx_section_finalize (struct disir_context *section)
 
     invalid = dx_validate_context (section);
 
+    // A finalized parent does not accept any entry that would make it invalid,
+    // including entries whose own elements are invalid.
+    if (invalid == DISIR_STATUS_ELEMENTS_INVALID &&
+        section->cx_parent_context->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (section, "section contains invalid elements.");
+        return DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
     // Perform full config validation.
     // Only add entries that are marked OK or INVALID
     if (invalid == DISIR_STATUS_OK ||
-- 
2.43.0


From c78dbcec22978db2ce7bf8fb96a89e192326fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 007/162] fix: path based setters use the mold's entry limits
 instead of the config version's

---
 lib/disir_config_query.c | 4 +++-
 lib/query.c              | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..2478fc3 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -9,6 +9,7 @@
 
 #include "context_private.h"
 #include "query_private.h"
+#include "config.h"
 #include "log.h"
 #include "value.h"
 #include "restriction.h"
@@ -178,7 +179,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     // Check if our keyval_index is out of bounds of the maximum number of instances.
     status = dx_restriction_entries_value (element_mold_equiv,
                                            DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                           NULL, &max_elements);
+                                           &immediate_parent->cx_root_context->cx_config->cf_version,
+                                           &max_elements);
     dc_putcontext (&element_mold_equiv);
     if (status != DISIR_STATUS_OK)
     {
diff --git a/lib/query.c b/lib/query.c
index 3db7537..1855419 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -7,6 +7,7 @@
 
 #include "context_private.h"
 #include "query_private.h"
+#include "config.h"
 #include "restriction.h"
 #include "log.h"
 
@@ -222,7 +223,8 @@ dx_query_ensure_ancestors (struct disir_context *config,
             int max_elements = 0;
             status = dx_restriction_entries_value (element_mold_equiv,
                                                    DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                                   NULL, &max_elements);
+                                                   &config->cx_root_context->cx_config->cf_version,
+                                                   &max_elements);
             if (status != DISIR_STATUS_OK)
             {
                 dc_putcontext (&element_mold_equiv);
-- 
2.43.0


From ed6a887a779a18b07753c8e14589a006746fbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 008/162] fix: values mix up or leak string storage when their
 type changes

Setting a keyval to a value of another type reinterpreted the string pointer as a
number (or the reverse), empty strings were never released, and setting a keyval to
the string it already holds copied from released memory.
---
 lib/context.c               |  2 +-
 lib/context_default.c       |  6 +---
 lib/context_documentation.c |  3 +-
 lib/context_keyval.c        | 12 ++-----
 lib/context_section.c       |  5 +--
 lib/context_value.c         | 10 +++---
 lib/include/value.h         |  6 ++++
 lib/util.c                  | 70 ++++++++++++++++++++++---------------
 8 files changed, 59 insertions(+), 55 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..ad02698 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -932,7 +932,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_set_type (&context->cx_keyval->kv_value, queried->cx_keyval->kv_value.dv_type);
     }
 
     dx_context_incref (queried);
diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..bd7ffcd 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -145,11 +145,7 @@ dx_default_destroy (struct disir_default **def)
 
     tmp = *def;
 
-    if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
-    {
-        free (tmp->de_value.dv_string);
-    }
+    dx_value_clear (&tmp->de_value);
 
     context = tmp->de_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..2e245b4 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    dx_value_clear (&tmp->dd_value);
 
     context = (*documentation)->dd_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..5c930c1 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,18 +386,10 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    dx_value_clear (&(*keyval)->kv_name);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
-        || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
-    {
-        free ((*keyval)->kv_value.dv_string);
-    }
+    dx_value_clear (&(*keyval)->kv_value);
 
     // Decref mold_equiv if set
     if ((*keyval)->kv_mold_equiv)
diff --git a/lib/context_section.c b/lib/context_section.c
index 4181f3c..dd9ab03 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -198,10 +198,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    dx_value_clear (&(*section)->se_name);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..c40f297 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -111,8 +111,8 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
         if (context->cx_keyval->kv_mold_equiv)
         {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
+            dx_value_set_type (&context->cx_keyval->kv_value,
+                               context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type);
         }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -173,7 +173,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -186,7 +186,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                                       dx_value_type_string (type),
                                       dx_value_type_string ((*storage)->dv_type));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
         }
         // Use-case 4
@@ -194,7 +194,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            dx_value_set_type (*storage, type);
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..e758bdd 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -77,6 +77,12 @@ int dx_value_compare (struct disir_value *v1, struct disir_value *v2);
 enum disir_status dx_value_copy (struct disir_value *destination, struct disir_value *source);
 
 
+//! \brief Change the type of the value, releasing a string the new type cannot hold.
+void dx_value_set_type (struct disir_value *value, enum disir_value_type type);
+
+//! \brief Release whatever the value holds and zero it. The type is kept.
+void dx_value_clear (struct disir_value *value);
+
 //! \brief Set the input 'value' with the contents of the input 'input'
 //!
 //! Allocate and copy the input 'input' into the 'value' structure.
diff --git a/lib/util.c b/lib/util.c
index 57638f9..d7bb76e 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -427,10 +427,41 @@ dx_value_get_float (struct disir_value *value, double *output_double)
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type)
+{
+    int is_string = (value->dv_type == DISIR_VALUE_TYPE_STRING ||
+                     value->dv_type == DISIR_VALUE_TYPE_ENUM);
+    int to_string = (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM);
+
+    // The representations share storage - start afresh when it changes.
+    if (is_string != to_string)
+    {
+        dx_value_clear (value);
+    }
+    value->dv_type = type;
+}
+
+//! INTERNAL API
+void
+dx_value_clear (struct disir_value *value)
+{
+    if (value->dv_type == DISIR_VALUE_TYPE_STRING || value->dv_type == DISIR_VALUE_TYPE_ENUM)
+    {
+        free (value->dv_string);
+    }
+    value->dv_integer = 0;
+    value->dv_string = NULL;
+    value->dv_size = 0;
+}
+
 //! INTERNAL API
 enum disir_status
 dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
 {
+    char *string;
+
     if (value == NULL)
     {
         log_debug (0, "invoked with NULL value pointer.");
@@ -445,41 +476,24 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
-        value->dv_size = 0;
-        value->dv_string = NULL;
+        dx_value_clear (value);
         return DISIR_STATUS_OK;
     }
 
-    if (value->dv_string == NULL || value->dv_size - 1 < size)
+    // Size of requested string + 1 for NULL terminator (which calloc provides).
+    // The input may be the very string we hold, so copy it before releasing ours.
+    string = calloc (1, size + 1);
+    if (string == NULL)
     {
-        // Just free the existing memory. We allocate a larger one below
-        if (value->dv_size - 1 < size)
-        {
-            free (value->dv_string);
-            value->dv_string = NULL;
-        }
-
-        // Size of requested string + 1 for NULL terminator
-        value->dv_string = calloc (1, size + 1);
-        if (value->dv_string == NULL)
-        {
-            log_error ("failed to allocate sufficient memory for value string (%d)",
-                       size + 1);
-            return DISIR_STATUS_NO_MEMORY;
-        }
+        log_error ("failed to allocate sufficient memory for value string (%d)",
+                   size + 1);
+        return DISIR_STATUS_NO_MEMORY;
     }
-
-    // Copy the incoming docstring to freely available space
-    memcpy (value->dv_string, input, size);
+    memcpy (string, input, size);
+    free (value->dv_string);
+    value->dv_string = string;
     value->dv_size = size;
 
-    // Terminate it with a zero terminator. Just to be safe.
-    value->dv_string[size] = '\0';
-
     log_debug (5, "stored string in disir_value (%p) of size (%d): %s\n",
                value, value->dv_size, value->dv_string);
 
-- 
2.43.0


From fba382cfd3630d06a6992ea0ad4d673c107c93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 009/162] fix: dx_value_stringify writes its terminator outside
 a too small buffer

---
 lib/util.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index d7bb76e..28c5b31 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -192,6 +192,10 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
         size = value->dv_size;
         copy_size = size;
 
+        if (output_buffer_size <= 0)
+        {
+            break;
+        }
         if (copy_size >= output_buffer_size)
         {
             // Set size to be output_buffer_size - 1,
@@ -200,8 +204,11 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
             log_debug (3, "Insufficient buffer provided - decrementing output size by one");
         }
 
-        memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        if (copy_size > 0)
+        {
+            memcpy (output, value->dv_string, copy_size);
+        }
+        output[copy_size] = '\0';
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From 822b24873dbdbcb5d605331ac9382c6c1467f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 010/162] fix: dx_value_compare truncates differences, so
 distinct numbers compare equal

---
 lib/util.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 28c5b31..5f6f20a 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -248,21 +248,20 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     if (v1->dv_type != v2->dv_type)
         return (INT_MIN);
 
-    if (v1->dv_size != v2->dv_size)
-        return (v1->dv_size - v2->dv_size);
-
-    // FIXME: There is probably some parts of this
-    //  compare that is sustainable to underflow/overflow..
     switch (dx_value_type_sanify (v1->dv_type))
     {
     case DISIR_VALUE_TYPE_ENUM:
         // FALL-THROUGH
     case DISIR_VALUE_TYPE_STRING:
+        if (v1->dv_size != v2->dv_size)
+            return (v1->dv_size < v2->dv_size ? -1 : 1);
+        if (v1->dv_size == 0)
+            return 0;
         return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 67e3fb31e21d3f4461625e9f056138c51d592919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 011/162] fix: dc_set_value aborts the process for an enum
 keyval

---
 lib/context_value.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index c40f297..1bb5ba0 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -315,8 +315,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
-- 
2.43.0


From 6fca88c203e59849db8b9faccb1104f70d6e5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 012/162] fix: dc_get_value_enum accepts string values

---
 lib/context_value.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 1bb5ba0..8257f95 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -779,7 +779,9 @@ dc_get_value_enum (struct disir_context *context, const char **output, int32_t *
         goto out;
     }
 
-    status = dx_value_get_string (storage, output, size);
+    status = (storage->dv_type == DISIR_VALUE_TYPE_STRING ?
+                  DISIR_STATUS_WRONG_VALUE_TYPE :
+                  dx_value_get_string (storage, output, size));
     if (status == DISIR_STATUS_INVALID_ARGUMENT)
     {
         dx_context_error_set (context,
-- 
2.43.0


From 434cd08541708254c078cafe173db5b8f1bd5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 013/162] fix: value restrictions compare integers above 2^53
 inexactly

---
 lib/context_restriction.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 5c68845..c9b68da 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1028,7 +1028,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     struct disir_version *config_version;
     int exclusive_fulfilled = 0;
     int restriction_entries_inactive = 0;
-    double value;
+    // Must represent every int64_t and every double exactly
+    long double value;
 
     char allowed_values[RESTRICTION_ENTRIES_BUFFER_SIZE];
     int allowed_written;
@@ -1048,7 +1049,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     {
     case DISIR_VALUE_TYPE_INTEGER:
     {
-        value = (double) integer_value;
+        value = integer_value;
         break;
     }
     case DISIR_VALUE_TYPE_FLOAT:
@@ -1105,7 +1106,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
         {
         case DISIR_RESTRICTION_EXC_VALUE_RANGE:
         {
-            log_debug (9, "value (%f), min (%f), max (%f)", value,
+            log_debug (9, "value (%Lf), min (%f), max (%f)", value,
                           entry->re_value_min, entry->re_value_max);
 
             if (dc_value_type (context) == DISIR_VALUE_TYPE_INTEGER)
@@ -1132,7 +1133,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
 
             if (value >= entry->re_value_min && value <= entry->re_value_max)
             {
-                log_debug (8, "Exclusive restriction %s(%p) fulfilled. (Value (%f) == [%f, %f])",
+                log_debug (8, "Exclusive restriction %s(%p) fulfilled. (Value (%Lf) == [%f, %f])",
                               dc_restriction_enum_string (entry->re_type), entry,
                               value, entry->re_value_min, entry->re_value_max);
                 exclusive_fulfilled = 1;
@@ -1141,7 +1142,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
         }
         case DISIR_RESTRICTION_EXC_VALUE_NUMERIC:
         {
-            log_debug (9, "value (%f) numeric (%f)", value, entry->re_value_numeric);
+            log_debug (9, "value (%Lf) numeric (%f)", value, entry->re_value_numeric);
 
             if (dc_value_type (context) == DISIR_VALUE_TYPE_INTEGER)
             {
@@ -1164,7 +1165,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
 
             if (value == entry->re_value_numeric)
             {
-                log_debug (6, "Exclusive restriction %s(%p) fufilled. (Value (%f) == %f)",
+                log_debug (6, "Exclusive restriction %s(%p) fufilled. (Value (%Lf) == %f)",
                               dc_restriction_enum_string (entry->re_type), entry,
                               value, entry->re_value_numeric);
 
-- 
2.43.0


From 7a383cf469239ecb6ce0580535ac94fcb1640c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 014/162] fix: dc_set_value_enum checks more of the input than
 it stores

---
 lib/context_value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 8257f95..ad89532 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -819,7 +819,10 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        // Only the first value_size bytes make up the value
+        char *terminated = (value == NULL ? NULL : strndup (value, value_size));
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, terminated);
+        free (terminated);
     }
 
      // Do not allow finalized context to change value
-- 
2.43.0


From 0e26d96b20bb8f2d167276961838b20f193561ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 015/162] fix: renaming an entry keeps the mold equivalent of
 its previous name

Naming a config entry again after an unknown name kept validating it against the
first name's mold entry, leaked a reference per call, and renaming a finalized entry
left its parent's name index stale.
---
 lib/context.c                 | 31 ++++++++++++++++++++++++++-----
 lib/include/context_private.h |  3 +++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index ad02698..acd06d9 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -529,6 +529,13 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    // Entries are indexed by name in their parent once finalized.
+    if (context->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (context, "cannot set name on a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
@@ -541,6 +548,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         if (invalid == DISIR_STATUS_NOT_EXIST)
         {
             context->CONTEXT_STATE_INVALID = 1;
+            // What a previous name resolved to no longer applies.
+            dx_clear_mold_equiv (context);
         }
 
         // Restriction check: Dis-allow operation if parent is finalized and max restriction exceeded
@@ -562,8 +571,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         }
     }
 
-    // QUESTION: Do not allow setting name on finalized context? Only if not invalid
-
     if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         status = dx_value_set_string (&context->cx_keyval->kv_name, name, name_size);
@@ -580,9 +587,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 
-    // TODO:  if context is not in constructing mode (it has been finalized once)
-    // remove old name from parent storage and add it under the new name.
-
     TRACE_EXIT ("status: %s", disir_status_string (status));
     return status;
 }
@@ -866,6 +870,22 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+void
+dx_clear_mold_equiv (struct disir_context *context)
+{
+    struct disir_context **equiv;
+
+    equiv = (dc_context_type (context) == DISIR_CONTEXT_SECTION
+                ? &context->cx_section->se_mold_equiv
+                : &context->cx_keyval->kv_mold_equiv);
+    if (*equiv)
+    {
+        dx_context_decref (equiv);
+        *equiv = NULL;
+    }
+}
+
 //! INTERNAL API
 enum disir_status
 dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t value_size)
@@ -925,6 +945,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    dx_clear_mold_equiv (context);
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
         context->cx_section->se_mold_equiv = queried;
diff --git a/lib/include/context_private.h b/lib/include/context_private.h
index 5a86a42..a3fc7d3 100644
--- a/lib/include/context_private.h
+++ b/lib/include/context_private.h
@@ -152,6 +152,9 @@ void dx_context_destroy (struct disir_context **context);
 enum disir_status dx_set_mold_equiv (struct disir_context *context,
                                      const char *value, int32_t value_size);
 
+//! \brief Drop the mold equivalent of a SECTION or KEYVAL whose root is CONFIG, if set.
+void dx_clear_mold_equiv (struct disir_context *context);
+
 //! \brief Retrieve the mold equivalent context for the input context
 //!
 //! The input context must have root CONFIG context, where valid contexts are:
-- 
2.43.0


From 1a46c600f36a6c5553c222de47d7ef572f7b4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 016/162] fix: restrictions up to INT64_MAX turn into INT64_MIN

---
 lib/context_restriction.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index c9b68da..e508d69 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -22,6 +22,18 @@
 //! active in a restriction check
 #define RESTRICTION_ENTRIES_BUFFER_SIZE 4096
 
+//! STATIC API
+//! Doubles outside the range of int64_t are whole already; converting them is undefined.
+static double
+truncate_to_integer (double value)
+{
+    if (value >= -9223372036854775808.0 && value < 9223372036854775808.0)
+    {
+        return (double) (int64_t) value;
+    }
+    return value;
+}
+
 const char *disir_restriction_strings[] = {
     "INVALID",
     "MINIMUM_ENTRIES",
@@ -529,8 +541,8 @@ dc_restriction_set_range (struct disir_context *context, double min, double max)
         // Store restriction value based on keyval type (integer vs float)
         if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
         {
-            context->cx_restriction->re_value_min = (int64_t) min;
-            context->cx_restriction->re_value_max = (int64_t) max;
+            context->cx_restriction->re_value_min = truncate_to_integer (min);
+            context->cx_restriction->re_value_max = truncate_to_integer (max);
         }
         else
         {
@@ -618,7 +630,7 @@ dc_restriction_set_numeric (struct disir_context *context, double value)
     // XXX if set_numeric is used by entries_max/min, this doesnt make much sense....
     if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
     {
-        value = (int64_t) value;
+        value = truncate_to_integer (value);
     }
 
     switch (context->cx_restriction->re_type)
-- 
2.43.0


From b0cae2e4e94d97d6109dd084339bf15e7b123e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 017/162] fix: generating a config leaks whatever it holds when
 it fails

---
 lib/generate.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..ec268a7 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -38,6 +38,10 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
     int min_entries;
     int i;
 
+    collection = NULL;
+    equiv = NULL;
+    context = NULL;
+
     // Get each element from the element storage of mold_parent
     status = dc_get_elements (mold_parent, &collection);
     if (status != DISIR_STATUS_OK)
@@ -102,8 +106,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
@@ -118,6 +126,15 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (context)
+    {
+        // An invalid entry already added to its parent only needs our reference put back.
+        dc_putcontext (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -161,7 +178,7 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
@@ -170,14 +187,14 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged ?
-            return status;
+            goto error;
         }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
     generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
-- 
2.43.0


From 5b5bf846c47809479fb311dfa9dba71831ebd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 018/162] fix: destroying a default leaves a dangling pointer
 in its keyval

---
 lib/context_default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index bd7ffcd..e876c38 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -151,7 +151,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
-- 
2.43.0


From 51f247a3902bbfa523e83d5866e3407335d6ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 019/162] fix: dc_get_default crashes for a keyval without
 defaults

---
 lib/context_default.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index e876c38..41bf1ab 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -539,7 +539,18 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            log_debug_context (0, context, "keyval has no mold equivalent to get default from");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            log_debug_context (0, context, "keyval has no default entries");
+            return DISIR_STATUS_NOT_EXIST;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
-- 
2.43.0


From be010e0b82a0440c977bb1930b9f58cf9a5b0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 020/162] fix: query positions beyond the range of int address
 some other entry

---
 lib/query.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index 1855419..ea7b58b 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1,3 +1,5 @@
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <stdarg.h>
@@ -28,6 +30,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long parsed_index;
 
     *index = 0;
     name_below = NULL;
@@ -95,7 +98,8 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
+        errno = 0;
+        parsed_index = strtol (name_index, &endptr, 10);
         if (name_index == endptr)
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
@@ -108,6 +112,14 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
                             resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
         }
+
+        if (errno == ERANGE || parsed_index < 0 || parsed_index > INT_MAX)
+        {
+            dx_log_context (parent, "'%s' index is out of range.", resolved);
+            return DISIR_STATUS_INVALID_ARGUMENT;
+        }
+
+        *index = parsed_index;
     }
 
     // Parsing went a-okay. Populate output parameters
-- 
2.43.0


From 2c1e94e596bc6ca86deb0101efe058c4a333d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 021/162] fix: a refused path based set leaks the section it
 created for it

---
 lib/query.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index ea7b58b..dcff702 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -288,6 +288,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
+                if (ancestor_context == current_context)
+                {
+                    ancestor_context = NULL;
+                }
                 dc_destroy (&current_context);
                 break;
             }
@@ -297,6 +301,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
+                if (ancestor_context == current_context)
+                {
+                    ancestor_context = NULL;
+                }
                 dc_destroy (&current_context);
                 break;
             }
@@ -345,12 +353,8 @@ dx_query_ensure_ancestors (struct disir_context *config,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        // If the ancestor was destroyed in our loop above, it has been reset.
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From b673353e5712fba55abcf4dafe3a70862200271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 022/162] fix: dc_resolve_root_name overruns its arrays, and
 hangs or crashes for contexts not in their parent

---
 lib/context.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index acd06d9..c026aa5 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -661,8 +661,9 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
     int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    int depth = 0;
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
     int current_name_index = -1;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
@@ -688,6 +689,20 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    // One name and index for each context up to the root.
+    for (current_context = context; current_context != NULL;
+         current_context = current_context->cx_parent_context)
+    {
+        depth += 1;
+    }
+    reverse_name_index = calloc (depth, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (depth, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
     while (current_context != NULL)
     {
@@ -696,7 +711,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 
         name_size = 0;
         status = dc_get_name (current_context, &name, &name_size);
-        if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK || name == NULL)
         {
             name = "undefined";
             name_size = 9;
@@ -717,12 +732,12 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 
             status = dc_find_elements (current_context->cx_parent_context, name, &collection);
             if (status != DISIR_STATUS_OK)
-                break;
+                goto out;
 
             do
             {
                 status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+                if (status != DISIR_STATUS_OK)
                     break;
 
                 i += 1;
@@ -742,7 +757,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             // The context is not found in the parent..
             if (status != DISIR_STATUS_OK)
             {
-                break;
+                status = DISIR_STATUS_NOT_EXIST;
+                goto out;
             }
         }
 
@@ -758,7 +774,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -787,6 +806,9 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
+
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From fb943a85470469052b420a71ee97044a32bf91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 023/162] fix: updating a config ignores everything after its
 first section

---
 lib/update.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..b08cb8b 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -55,8 +55,9 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
         if (status != DISIR_STATUS_OK)
             break;
 
+        // A section is exhausted when all its elements are retrieved
         status = retrieve_all_keyvals_recursively (context, keyvals);
-        if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
             break;
 
         dc_putcontext (&context);
-- 
2.43.0


From 94250e0b439f9022b9c6e49f78b31b509d88315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 024/162] fix: an updated config loses the user's values and
 misplaces resolved conflicts

---
 lib/include/update_private.h |   2 +
 lib/update.c                 | 140 ++++++++++++++++++++++++++---------
 2 files changed, 109 insertions(+), 33 deletions(-)

diff --git a/lib/include/update_private.h b/lib/include/update_private.h
index 6aa28b4..daa0ab6 100644
--- a/lib/include/update_private.h
+++ b/lib/include/update_private.h
@@ -20,6 +20,8 @@ struct disir_update
     //! Conflict state - NULL when no conflict
     struct disir_keyval         *up_keyval;
     struct disir_context        *up_context_keyval;
+    //! Path from the root of the config to the conflicting keyval.
+    char                        *up_path;
     char                        *up_config_value;
     char                        *up_mold_value;
 };
diff --git a/lib/update.c b/lib/update.c
index b08cb8b..66c53e8 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -72,6 +72,52 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     return status;
 }
 
+//! STATIC FUNCTION
+//! Set the value of the entry at path in the updated config. The entry (and its parent
+//! sections) are created if they do not exist, provided the target version allows it.
+static enum disir_status
+set_target_value (struct disir_config *target, const char *path, struct disir_value *value)
+{
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        return disir_config_set_keyval_string (target, value->dv_string ? value->dv_string : "",
+                                               "%s", path);
+    case DISIR_VALUE_TYPE_ENUM:
+        return disir_config_set_keyval_enum (target, value->dv_string ? value->dv_string : "",
+                                             "%s", path);
+    case DISIR_VALUE_TYPE_INTEGER:
+        return disir_config_set_keyval_integer (target, value->dv_integer, "%s", path);
+    case DISIR_VALUE_TYPE_FLOAT:
+        return disir_config_set_keyval_float (target, value->dv_float, "%s", path);
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        return disir_config_set_keyval_boolean (target, value->dv_boolean, "%s", path);
+    default:
+        return DISIR_STATUS_INTERNAL_ERROR;
+    }
+}
+
+//! STATIC FUNCTION
+static char *
+stringify_value (struct disir_value *value)
+{
+    char *output;
+    int32_t size = 512;
+
+    if ((value->dv_type == DISIR_VALUE_TYPE_STRING || value->dv_type == DISIR_VALUE_TYPE_ENUM) &&
+        value->dv_size >= size)
+    {
+        size = value->dv_size + 1;
+    }
+
+    output = malloc (size);
+    if (output)
+    {
+        dx_value_stringify (value, size, output, NULL);
+    }
+    return output;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
@@ -156,7 +202,6 @@ disir_update_continue (struct disir_update *update)
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
     int res;
 
     config_keyval = NULL;
@@ -189,16 +234,24 @@ disir_update_continue (struct disir_update *update)
         update->up_context_keyval = config_keyval;
         keyval = config_keyval->cx_keyval;
 
-        // Get keyval default of target version - if version is less or equal to current
-        // Do nothing
+        free (update->up_path);
+        update->up_path = NULL;
+        status = dc_resolve_root_name (config_keyval, &update->up_path);
+        if (status != DISIR_STATUS_OK)
+            break;
+
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
-        res = dc_version_compare (&target_def->de_introduced,
-                                  &update->up_config_old->cf_version);
-        if (res <= 0)
+
+        // The target shall have an equivalent entry, with the default of the target version.
+        status = set_target_value (update->up_config_target, update->up_path,
+                                   &target_def->de_value);
+        if (status != DISIR_STATUS_OK)
         {
-            // Do nothing - mold default value for target is older or equal to config version
+            log_debug (4, "entry '%s' cannot exist in target version: %s", update->up_path,
+                       disir_status_string (status));
             continue;
         }
+
         // We might get lucky and have the current config value equal the target default value
         res = dx_value_compare (&keyval->kv_value, &target_def->de_value);
         if (res == 0)
@@ -208,38 +261,53 @@ disir_update_continue (struct disir_update *update)
             continue;
         }
 
-        // Two cases:
-        //  * Update config if value of default at config version equals entry in config
-        //  * Conflict if default at config version differ from entry in config
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
-                               &config_def);
-        res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
-        if (res == 0)
+        res = dc_version_compare (&target_def->de_introduced,
+                                  &update->up_config_old->cf_version);
+        if (res <= 0)
         {
-            // Config has not changed since its last update value.
-            // We can safely update the stored value in config with new default
-            dx_value_copy (&keyval->kv_value, &target_def->de_value);
-            // TODO: Add update report entry
-            update->up_updated++;
+            // Mold default value for target is older or equal to config version.
+            // Keep the value found in config, unless target version no longer allows it.
+            status = set_target_value (update->up_config_target, update->up_path,
+                                       &keyval->kv_value);
+            if (status == DISIR_STATUS_OK)
+            {
+                continue;
+            }
         }
         else
         {
-            // Oh-oh - We have a conflict
-            // Target default is higher version than config value. Config value differ
-            // from config default. Manual resolution is in order.
-            update->up_keyval = keyval;
-
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+            // Two cases:
+            //  * Update config if value of default at config version equals entry in config
+            //  * Conflict if default at config version differ from entry in config
+            dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
+                                   &config_def);
+            res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
+            if (res == 0)
+            {
+                // Config has not changed since its last update value.
+                // We can safely update the stored value in config with new default
+                dx_value_copy (&keyval->kv_value, &target_def->de_value);
+                // TODO: Add update report entry
+                update->up_updated++;
+                continue;
+            }
+        }
 
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+        // Oh-oh - We have a conflict
+        // Target default is higher version than config value, and config value differ
+        // from config default - or the config value is not allowed in the target version.
+        // Manual resolution is in order.
+        update->up_keyval = keyval;
 
-            // Signal that manual resolution is required.
-            return DISIR_STATUS_CONFLICT;
+        update->up_config_value = stringify_value (&keyval->kv_value);
+        update->up_mold_value = stringify_value (&target_def->de_value);
+        if (update->up_config_value == NULL || update->up_mold_value == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
         }
+
+        // Signal that manual resolution is required.
+        return DISIR_STATUS_CONFLICT;
     }
     if (status != DISIR_STATUS_EXHAUSTED)
     {
@@ -298,8 +366,13 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
+    if (resolve == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+                                       "%s", &context_keyval, update->up_path);
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -356,6 +429,7 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
     {
         free (up->up_mold_value);
     }
+    free (up->up_path);
     if (up->up_context_keyval)
     {
         dc_putcontext (&up->up_context_keyval);
-- 
2.43.0


From 41bd63e50f59b7f4250ebe0393a3ae4bb28c2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 025/162] fix: updating a config to a version whose defaults
 are invalid leaks the generated config

---
 lib/update.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 66c53e8..b866d9e 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -124,7 +124,7 @@ disir_update_config (struct disir_config *config,
                      struct disir_version *target, struct disir_update **update)
 {
     enum disir_status status;
-    struct disir_config *config_at_target;
+    struct disir_config *config_at_target = NULL;
     int res;
     char buffer[512];
     struct disir_update *up;
@@ -170,14 +170,14 @@ disir_update_config (struct disir_config *config,
     }
 
     status = disir_generate_config_from_mold (config->cf_mold, target, &config_at_target);
+    // An invalid config is also generated, and must be disposed of.
+    up->up_config_target = config_at_target;
     if (status != DISIR_STATUS_OK)
     {
         log_error ("failed to generate config from mold\n");
-        goto error;;
+        goto error;
     }
 
-    up->up_config_target = config_at_target;
-
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-- 
2.43.0


From ecdf8a41026d8dfe327ec9aeca98e74a457437ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 026/162] fix: importing with update drops the updated config
 when there are no conflicts

---
 lib/update.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index b866d9e..0172b1f 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -455,34 +455,30 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_CONFLICT)
         goto error;
 
-    do
+    while (status == DISIR_STATUS_CONFLICT)
     {
-        if (status != DISIR_STATUS_CONFLICT)
-            break;
-
         status = disir_update_conflict (update, &name, &keyval, &mold);
         if (status != DISIR_STATUS_OK)
             goto error;
 
         status = disir_update_resolve (update, keyval);
-        if (status != DISIR_STATUS_OK &&
-            status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
+        if (status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
 
         status = disir_update_continue (update);
-
     }
-    while (1);
-   
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     c = *config;
 
     disir_update_finished (&update, config);
-- 
2.43.0


From 1ab7634a4f13507d21d0f5c6106c8b056d48c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 027/162] fix: JSON documents with integers above the 32-bit
 range cannot be read back

---
 lib/fslib/json/jsonIO.cc                  | 28 +++++++++++++++++++++--
 lib/fslib/json/json_unserialize_config.cc |  1 +
 lib/fslib/json/json_unserialize_mold.cc   |  1 +
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/jsonIO.cc b/lib/fslib/json/jsonIO.cc
index 72ec113..fc1288d 100644
--- a/lib/fslib/json/jsonIO.cc
+++ b/lib/fslib/json/jsonIO.cc
@@ -41,6 +41,7 @@ std::map<const char *, enum disir_restriction_type, cmp_str> attribute_disir_res
 //! Map holding string representation of json valuetypes
 std::map<Json::ValueType, const char *> json_type_stringified  = {
     {Json::intValue    , "integer"},
+    {Json::uintValue   , "integer"},
     {Json::realValue   , "float"},
     {Json::booleanValue , "boolean"},
     {Json::stringValue , "string"},
@@ -95,6 +96,19 @@ set_value (struct disir_context *context, Json::Value& val)
             return dc_set_value_integer (context, val.asInt64());
         }
     }
+    case Json::uintValue:
+    {
+        // The parser yields unsigned for integers above the 32-bit range
+        if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_set_value_float (context, (double)val.asDouble());
+        }
+        if (val.isInt64())
+        {
+            return dc_set_value_integer (context, val.asInt64());
+        }
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
     case Json::booleanValue:
         return dc_set_value_boolean (context, val.asBool());
     case Json::realValue:
@@ -113,7 +127,6 @@ set_value (struct disir_context *context, Json::Value& val)
         }
     }
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
@@ -138,6 +151,18 @@ add_value_default (struct disir_context *context, Json::Value& value,
             return dc_add_default_integer (context, value.asInt64(), version);
         }
     }
+    case Json::uintValue:
+    {
+        if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_add_default_float (context, (double)value.asDouble(), version);
+        }
+        if (value.isInt64())
+        {
+            return dc_add_default_integer (context, value.asInt64(), version);
+        }
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
     case Json::booleanValue:
         return dc_add_default_boolean (context, (uint8_t)value.asInt64(), version);
     case Json::realValue:
@@ -146,7 +171,6 @@ add_value_default (struct disir_context *context, Json::Value& value,
         return dc_add_default_string (context, value.asString().c_str(),
                                                value.asString().size(), version);
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..76f548a 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -297,6 +297,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         }
         break;
     case Json::intValue:
+    case Json::uintValue:
     case Json::stringValue:
     case Json::realValue:
     case Json::booleanValue:
diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index f60527e..c9c0b33 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -541,6 +541,7 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     case DISIR_RESTRICTION_EXC_VALUE_NUMERIC:
     {
         if (assert_json_value_type (value, Json::intValue) != DISIR_STATUS_OK
+            && assert_json_value_type (value, Json::uintValue) != DISIR_STATUS_OK
             && assert_json_value_type (value, Json::realValue) != DISIR_STATUS_OK)
         {
             dc_fatal_error (context,
-- 
2.43.0


From af9580905bf5b176b63b5dd7da745bc248f69dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 028/162] fix: reporting a JSON parse error reads the freed
 document

---
 3rdparty/jsoncpp/jsoncpp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 114d2b2..c9f7882 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -302,7 +302,10 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
   // create an extra copy.
   JSONCPP_STRING doc;
   std::getline(sin, doc, (char)EOF);
-  return parse(doc.data(), doc.data() + doc.size(), root, collectComments);
+
+  // The error locations point into the document, so it must outlive this call.
+  document_.swap(doc);
+  return parse(document_.data(), document_.data() + document_.size(), root, collectComments);
 }
 
 bool Reader::parse(const char* beginDoc,
-- 
2.43.0


From 8dcb16bfcd40396cab187f2fb88ab35dce1344a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 029/162] fix: floats lose precision when written as JSON

---
 3rdparty/jsoncpp/jsoncpp.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index c9f7882..eaa60df 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -4432,7 +4432,18 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats, unsigned int p
 }
 }
 
-JSONCPP_STRING valueToString(double value) { return valueToString(value, false, 16); }
+JSONCPP_STRING valueToString(double value) {
+  JSONCPP_STRING text = valueToString(value, false, 16);
+  if (isfinite(value)) {
+    // 16 digits do not tell all doubles apart, 17 do.
+    if (strtod(text.c_str(), NULL) != value)
+      text = valueToString(value, false, 17);
+    // An integer has no negative zero.
+    if (text == "-0")
+      text = "-0.0";
+  }
+  return text;
+}
 
 JSONCPP_STRING valueToString(bool value) { return value ? "true" : "false"; }
 
-- 
2.43.0


From f8e4a826a37b11f5983731b7adb1d6c1bcc389b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 030/162] fix: writing TOML leaks the config and reports
 success when it fails

---
 lib/fslib/toml/toml_serialize.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..60ac22f 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -238,7 +238,10 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
         if (current->has (name))
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
@@ -302,6 +305,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     // Mjes
     status = toml_serialize_elements (context_config, current);
+    dc_putcontext (&context_config);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
 
     boost::fdostream file(fileno(output));
     root.write (&file);
-- 
2.43.0


From 0450acf1ad4ffdb4b3754702fcb6b3650924740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 031/162] fix: floats lose precision when written as TOML

---
 3rdparty/tinytoml/toml.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index c1c0f28..bc94fbc 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <ctime>
 #include <iomanip>
 #include <istream>
@@ -380,6 +381,7 @@ public:
     static std::string spaces(int num);
     static std::string escapeKey(const std::string& key);
     static std::string escapeString(const std::string& s);
+    static std::string formatDouble(double value);
     static bool tableContainsKeyval(const Value& value);
 
 private:
@@ -2011,6 +2013,24 @@ inline std::string Writer::escapeString(const std::string& s)
     return ss.str();
 }
 
+// static
+// Fixed notation with six decimals unless it takes more to get the same value back
+inline std::string Writer::formatDouble(double value)
+{
+    std::stringstream ss;
+    ss << std::fixed << std::showpoint << value;
+    if (!std::isfinite(value) || std::strtod(ss.str().c_str(), nullptr) == value)
+        return ss.str();
+
+    for (int precision : {15, 16}) {
+        ss.str(std::string());
+        ss << std::scientific << std::setprecision(precision) << value;
+        if (std::strtod(ss.str().c_str(), nullptr) == value)
+            break;
+    }
+    return ss.str();
+}
+
 // static
 // Determine if the input Value table contains any keys that are not Table
 inline bool Writer::tableContainsKeyval(const Value& value)
@@ -2237,7 +2257,7 @@ inline void Writer::writeType(const Value& value)
     case Value::DOUBLE_TYPE: {
         // Inline float type.
         // Can extract out in separate method if float output is specified by format.
-        output_ << std::fixed << std::showpoint << value.double_;
+        output_ << formatDouble(value.double_);
         break;
     }
     case Value::STRING_TYPE:
-- 
2.43.0


From 881c8c58bd4e66c516e1d9f06403a12ff97db7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 032/162] fix: TOML documents lose empty sections and may be
 unreadable for nested ones

---
 3rdparty/tinytoml/toml.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index bc94fbc..f8c77c0 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2170,7 +2170,8 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     std::string pre("\n");
     std::string post("");
 
-    bool hasKeyvals = tableContainsKeyval(value);
+    // An empty table exists only through its key.
+    bool hasKeyvals = tableContainsKeyval(value) || value.table_->empty();
 
     // We may write this inline if we are not root, and the FORMAT_TABLE_INLINE option is
     // set either on the global options or on the value specific formatting options.
@@ -2219,7 +2220,11 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
         output_ << separator_;
 
     // This will determine what formatting algorithm to use
-    writeTableWithoutKey(value, key);
+    // A table whose key is not written continues where its parent is.
+    if (key.empty() == false && hasKeyvals == false && writingTableInline_ == false)
+        writeTableCatagorizedLexicographical(value, key);
+    else
+        writeTableWithoutKey(value, key);
 
     if (writingTableInline_)
         output_ << post;
-- 
2.43.0


From ac109263b1b9ab6631389dc9b7f777eed8d9f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 033/162] fix: collections skip or lose members when passed
 ones are destroyed

---
 lib/collection.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..20e990a 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -152,6 +152,9 @@ dx_collection_coalesce (struct disir_collection *collection)
             {
                 dx_context_decref (&context);
                 invalid_entries_count += 1;
+                // An entry already passed by the iterator is gone - move it back.
+                if (index - 1 < collection->cc_iterator_index)
+                    iterator_moveback += 1;
                 context = collection->cc_collection[index - 1] = NULL;
             }
 
@@ -166,13 +169,6 @@ dx_collection_coalesce (struct disir_collection *collection)
                     context = collection->cc_collection[probe];
                     collection->cc_collection[probe] = NULL;
                     collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
                 }
 
                 probe++;
-- 
2.43.0


From a2bf9cad5fae8e165070b8c1618097771c119996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 034/162] fix: comparing molds looks at the first restriction
 only

---
 lib/compare.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..fcabacf 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -341,15 +341,16 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
-            && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
     {
         dx_diff_report_add (report, "Restriction values differ... (printout NYI)");
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From 61b58f0246178905072998160f2664178533dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 035/162] fix: comparing molds ignores introduced and
 deprecated of elements

---
 lib/compare.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/compare.c b/lib/compare.c
index fcabacf..f43078b 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -353,6 +353,24 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
+//! STATIC FUNCTION
+static void
+compare_element_version (struct disir_context *element, const char *attribute,
+                         struct disir_version *lhs, struct disir_version *rhs,
+                         struct disir_diff_report *report)
+{
+    char lhsbuf[100];
+    char rhsbuf[100];
+
+    if (dc_version_compare (lhs, rhs) == 0)
+        return;
+
+    dc_version_string (lhsbuf, 100, lhs);
+    dc_version_string (rhsbuf, 100, rhs);
+    dx_diff_report_add (report, "%s differ in %s (%s vs %s)",
+                                dx_context_name (element), attribute, lhsbuf, rhsbuf);
+}
+
 //! STATIC FUNCTION
 static enum disir_status
 compare_all_in_name (struct disir_context *lhs, struct disir_context *rhs, const char *name,
@@ -707,6 +725,9 @@ diff_compare_contexts_with_report (struct disir_context *lhs, struct disir_conte
 
         if (dc_context_type (lhs->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
+            compare_element_version (lhs, "deprecated", &lhs->cx_keyval->kv_deprecated,
+                                     &rhs->cx_keyval->kv_deprecated, report);
+
             status = compare_documentation_queues (lhs->cx_keyval->kv_documentation_queue,
                                                    rhs->cx_keyval->kv_documentation_queue,
                                                    report);
@@ -761,6 +782,11 @@ diff_compare_contexts_with_report (struct disir_context *lhs, struct disir_conte
         // For mold, check documentation entries
         if (dc_context_type (lhs->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
+            compare_element_version (lhs, "introduced", &lhs->cx_section->se_introduced,
+                                     &rhs->cx_section->se_introduced, report);
+            compare_element_version (lhs, "deprecated", &lhs->cx_section->se_deprecated,
+                                     &rhs->cx_section->se_deprecated, report);
+
             status = compare_documentation_queues (lhs->cx_section->se_documentation_queue,
                                                    rhs->cx_section->se_documentation_queue,
                                                    report);
-- 
2.43.0


From 9c09c88ed29c19188c8e87889fdad499b55bd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 036/162] fix: molds with empty sections or no entries are
 written unreadable

---
 lib/fslib/json/json_serialize_mold.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..7b66880 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -98,6 +98,8 @@ MoldWriter::serialize (struct disir_mold *mold, std::string& mold_json)
         return status;
     }
 
+    // An object even when it has no entries, null is not readable
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -129,6 +131,8 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
         return status;
     }
 
+    // An object even when it has no entries, null is not readable
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -410,6 +414,7 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
                     return status;
                 }
 
+                child[ATTRIBUTE_KEY_ELEMENTS] = Json::objectValue;
                 status = _serialize_mold_contexts (context, child[ATTRIBUTE_KEY_ELEMENTS]);
                 if (status != DISIR_STATUS_OK)
                     goto end;
-- 
2.43.0


From a70bb7b178e6ccf3fddb2f32a78b79f27691fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 037/162] fix: restriction bounds outside the integer range are
 written as other numbers

---
 lib/fslib/json/json_serialize_mold.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 7b66880..b58f709 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -242,6 +242,18 @@ out:
      return status;
 }
 
+//! Bounds are stored as double, not all of which fit an integer
+static Json::Value
+integer_bound (double value)
+{
+    if (value >= -9223372036854775808.0 && value < 9223372036854775808.0)
+    {
+        return Json::Value ((Json::Int64)value);
+    }
+
+    return Json::Value (value);
+}
+
 enum disir_status
 MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value& current)
 {
@@ -309,7 +321,7 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             }
             else
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE] = (Json::Int64)value;
+                current_restriction[ATTRIBUTE_KEY_VALUE] = integer_bound (value);
             }
             break;
         }
@@ -330,8 +342,8 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             }
             else
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)min);
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)max);
+                current_restriction[ATTRIBUTE_KEY_VALUE].append (integer_bound (min));
+                current_restriction[ATTRIBUTE_KEY_VALUE].append (integer_bound (max));
             }
 
             break;
-- 
2.43.0


From 08e1a10a647fa708ce155c9771106b7eaf8a1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 038/162] fix: range bounds above the integer range are refused
 when reading a mold

---
 lib/fslib/json/json_unserialize_mold.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index c9c0b33..b66a46e 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -559,10 +559,14 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_EXC_VALUE_RANGE:
     {
-        if (assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK)
+        auto is_number = [] (const Json::Value& bound)
+        {
+            return bound.type () == Json::intValue ||
+                   bound.type () == Json::uintValue ||
+                   bound.type () == Json::realValue;
+        };
+
+        if (is_number (value[0]) && is_number (value[1]))
         {
 
             auto min = value[0].asDouble();
@@ -584,11 +588,10 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
         }
         else
         {
-            // only using value[0] since the json library
-            // restricts types in an array to be equal
             dc_fatal_error (context,
                             "wrong type for value range - got %s, expected integer or float",
-                            json_valuetype_stringify (value[0].type()));
+                            json_valuetype_stringify (is_number (value[0]) ? value[1].type()
+                                                                           : value[0].type()));
             return DISIR_STATUS_INVALID_CONTEXT;
         }
         break;
-- 
2.43.0


From 83360e15b337c475b161dcc3d11ae591845b51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 039/162] fix: molds with an empty documentation string cannot
 be read back

---
 lib/fslib/json/json_unserialize_mold.cc | 36 +++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index b66a46e..5587be3 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -78,6 +78,38 @@ MoldReader::unserialize (std::istream& stream, struct disir_mold **mold)
     return construct_mold (mold);
 }
 
+//! dc_add_documentation () does not take an empty string.
+static enum disir_status
+add_documentation (struct disir_context *parent, const std::string& doc)
+{
+    enum disir_status status;
+    struct disir_context *context = NULL;
+
+    if (doc.empty () == false)
+    {
+        return dc_add_documentation (parent, doc.c_str (), doc.size ());
+    }
+
+    status = dc_begin (parent, DISIR_CONTEXT_DOCUMENTATION, &context);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
+    status = dc_set_value_string (context, "", 0);
+    if (status == DISIR_STATUS_OK)
+    {
+        status = dc_finalize (&context);
+    }
+
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+
+    return status;
+}
+
 enum disir_status
 MoldReader::construct_mold (struct disir_mold **mold)
 {
@@ -93,7 +125,7 @@ MoldReader::construct_mold (struct disir_mold **mold)
     if (mold_has_documentation (m_moldRoot))
     {
         auto doc = m_moldRoot[ATTRIBUTE_KEY_DOCUMENTATION].asString ();
-        status = dc_add_documentation (context_mold, doc.c_str (), doc.size ());
+        status = add_documentation (context_mold, doc);
         if (status != DISIR_STATUS_OK)
         {
 
@@ -377,7 +409,7 @@ MoldReader::unserialize_documentation (struct disir_context *context, Json::Valu
        return DISIR_STATUS_INVALID_CONTEXT;
     }
 
-    status = dc_add_documentation (context, doc.asCString (), strlen (doc.asCString ()));
+    status = add_documentation (context, doc.asCString ());
     if (status != DISIR_STATUS_OK)
     {
         disir_log_user (m_disir, "could not add documentation: %s",
-- 
2.43.0


From 2c307cd4aed131d3d6ba4899dd79d19622764d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 040/162] fix: reading an invalid TOML config leaks its invalid
 entries

---
 lib/fslib/toml/toml_unserialize.cc | 40 +++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..1eb1bda 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -63,7 +63,7 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
                                 const toml::Value& value, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &context);
     if (status != DISIR_STATUS_OK)
@@ -133,10 +133,24 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The invalid context lives on in its parent - give up our reference to it.
+        dc_putcontext (&context);
+    }
+    else if (status != DISIR_STATUS_OK)
+    {
+        goto error;
+    }
+
+    return status;
 error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
 
-    dc_destroy (&context);
     return status;
 }
 
@@ -145,7 +159,7 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
                             const toml::Value& table, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_SECTION, &context);
     if (status != DISIR_STATUS_OK)
@@ -172,10 +186,24 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The invalid context lives on in its parent - give up our reference to it.
+        dc_putcontext (&context);
+    }
+    else if (status != DISIR_STATUS_OK)
+    {
+        goto error;
+    }
+
+    return status;
 error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
 
-    dc_destroy (&context);
     return status;
 }
 
-- 
2.43.0


From 85979e87eec750c9bf0c477095e42bc115ca8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 041/162] fix: a TOML config with an unreadable or too new
 version is read as another version

---
 lib/fslib/toml/toml_unserialize.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 1eb1bda..d217361 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -304,28 +304,29 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
         disir_log_user (instance, "TOML: we have the config!");
         if (version->is<std::string>() == false)
         {
-            // XXX: set error on CONFIG_CONTEXT
-            disir_error_set (instance, "TOML: Attribute %s is of unexpected type %s."
-                                       " Expecting string. Defaulting to version 1.0.0",
-                                       ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
-                                       version->typeAsString ());
+            dc_fatal_error (context_config, "TOML: Attribute %s is of unexpected type %s."
+                                            " Expecting string.",
+                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
+                                            version->typeAsString ());
         }
         else
         {
             status = dc_version_convert (version->as<std::string>().c_str (), &config_version);
             if (status != DISIR_STATUS_OK)
             {
-                // XXX: set error on CONFIG_CONTEXT
                 disir_error_set (instance, "TOML: Malformed %s string '%s'.",
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
+                dc_destroy (&context_config);
+                return status;
             }
             status = dc_set_version (context_config, &config_version);
             if (status != DISIR_STATUS_OK)
             {
-                // TODO. Determine how to handle this situvation.
                 disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
                                           disir_status_string (status));
+                dc_destroy (&context_config);
+                return status;
             }
         }
 
-- 
2.43.0


From 0e979a41290c64588151df914b5b7b9c607be14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 042/162] fix: TOML parse errors are used as format string

---
 lib/fslib/toml/toml_unserialize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index d217361..e4b2346 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -217,7 +217,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     {
     case toml::Value::NULL_TYPE:
     {
-        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.");
+        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.", key);
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
@@ -282,7 +282,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "%s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
-- 
2.43.0


From 9b532f68dc8ccc2d1e713c4c70f2593619331dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 043/162] fix: malformed TOML documents throw exceptions
 through the reader

---
 lib/fslib/toml/toml_unserialize.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index e4b2346..4867ece 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -258,6 +258,20 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     return status;
 }
 
+//! The parser throws on some malformed documents - report these as any other parse error.
+static toml::ParseResult
+dio_toml_parse (std::istream& stream)
+{
+    try
+    {
+        return toml::parse (stream);
+    }
+    catch (std::exception& e)
+    {
+        return toml::ParseResult (toml::Value (), e.what ());
+    }
+}
+
 //! FSLIB API
 enum disir_status
 dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
@@ -278,7 +292,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     // XXX: Check file
 
     // Pare the TOML formatted file and extract it into a toml::Value object
-    toml::ParseResult pr = toml::parse (file);
+    toml::ParseResult pr = dio_toml_parse (file);
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-- 
2.43.0


From 246430d917d9a65ede9926983d6ac64a927d6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 044/162] fix: TOML numbers out of range are read as another
 number

---
 3rdparty/tinytoml/toml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index f8c77c0..98231ea 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -816,14 +816,16 @@ inline Token Lexer::nextValue()
     if (isInteger(s)) {
         std::stringstream ss(removeDelimiter(s));
         std::int64_t x;
-        ss >> x;
+        if (!(ss >> x))
+            return Token(TokenType::ERROR, std::string("Integer out of range"));
         return Token(TokenType::INT, x);
     }
 
     if (isDouble(s)) {
         std::stringstream ss(removeDelimiter(s));
         double d;
-        ss >> d;
+        if (!(ss >> d))
+            return Token(TokenType::ERROR, std::string("Float out of range"));
         return Token(TokenType::DOUBLE, d);
     }
 
-- 
2.43.0


From 7d962759ff6ff7df5ffa298e19b75fdc8e86e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 045/162] fix: failing to read a JSON config leaks the sections
 around the failure

---
 lib/fslib/json/json_unserialize_config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 76f548a..35761b9 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -269,16 +269,16 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            // Reeling us in by only loggin the error
             disir_log_user (m_disir, "Could not finalize context: %s",
                                      disir_status_string (status));
+            goto error;
         }
 
         // If context is invalid we need to
-- 
2.43.0


From 5677bde019821e0ecc83cc1a1c80f77b9e27e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 046/162] fix: JSON integers out of range are read as zero

---
 lib/fslib/json/json_unserialize_config.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 35761b9..5de4444 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -197,6 +197,13 @@ ConfigReader::set_keyval (struct disir_context *parent_context,
         goto error;
     }
 
+    if (status == DISIR_STATUS_WRONG_VALUE_TYPE)
+    {
+        dc_fatal_error (context_keyval, "value should be %s, got %s",
+                                        dc_value_type_string (context_keyval),
+                                        json_valuetype_stringify (keyval.type ()));
+    }
+
     status = dc_finalize (&context_keyval);
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
-- 
2.43.0


From cc59c78d5150c65e57ceb932bbff88e6fa704b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 047/162] fix: reading a JSON mold with a type on a section
 aborts the process

---
 lib/fslib/json/json_unserialize_mold.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 5587be3..22727e2 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -339,7 +339,7 @@ MoldReader::set_context_attributes (struct disir_context *context,
     }
 
     // Only set type if it's not a section
-    if(current[ATTRIBUTE_KEY_TYPE].isNull () == false)
+    if (type == DISIR_CONTEXT_KEYVAL && current[ATTRIBUTE_KEY_TYPE].isNull () == false)
     {
         status = assert_json_value_type (current[ATTRIBUTE_KEY_TYPE], Json::stringValue);
         if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 1bd401b1551a7d7ae983e1151b98474625b39d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 048/162] fix: JSON molds of the wrong structure throw or are
 accepted

---
 lib/fslib/json/json_unserialize_mold.cc | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 22727e2..cd187eb 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -116,6 +116,13 @@ MoldReader::construct_mold (struct disir_mold **mold)
     struct disir_context *context_mold = NULL;
     enum disir_status status;
 
+    if (m_moldRoot.isObject () == false)
+    {
+        disir_error_set (m_disir, "Mold should be of type object, got %s",
+                                  json_valuetype_stringify (m_moldRoot.type ()));
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+
     status = dc_mold_begin (&context_mold);
     if (status != DISIR_STATUS_OK)
     {
@@ -128,12 +135,16 @@ MoldReader::construct_mold (struct disir_mold **mold)
         status = add_documentation (context_mold, doc);
         if (status != DISIR_STATUS_OK)
         {
-
-            return status;
+            goto error;
         }
     }
+    else if (m_moldRoot[ATTRIBUTE_KEY_DOCUMENTATION].isNull () == false)
+    {
+        dc_fatal_error (context_mold, "Documentation shall be of type string");
+        goto finalize;
+    }
 
-    if (m_moldRoot[ATTRIBUTE_KEY_MOLD].isNull ())
+    if (m_moldRoot[ATTRIBUTE_KEY_MOLD].isObject () == false)
     {
         dc_fatal_error (context_mold, "missing top-level object 'mold'");
         goto finalize;
@@ -424,6 +435,12 @@ MoldReader::unserialize_restriction (struct disir_context *restriction, Json::Va
 {
     enum disir_status status;
 
+    if (current.isObject () == false)
+    {
+        dc_fatal_error (restriction, "Restriction should be of type object");
+        return DISIR_STATUS_INVALID_CONTEXT;
+    }
+
     if (current[ATTRIBUTE_KEY_TYPE].isNull ())
     {
         dc_fatal_error (restriction, "No restriction type");
@@ -750,7 +767,8 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
             continue;
         }
 
-        if (def[ATTRIBUTE_KEY_VALUE].isNull ())
+        error = DISIR_STATUS_OK;
+        if (def.isObject () == false || def[ATTRIBUTE_KEY_VALUE].isNull ())
         {
             dc_fatal_error (context_default, "Default value is not present");
             error = DISIR_STATUS_NOT_EXIST;
-- 
2.43.0


From 40167d3ba5e996841f325240e6d38ce209b7952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 049/162] fix: failing to read a JSON mold leaks the elements
 around the failure

---
 lib/fslib/json/json_unserialize_mold.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index cd187eb..37626b2 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -215,14 +215,14 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     status = dc_begin (parent_context, type, &context);
     if (status != DISIR_STATUS_OK)
     {
-        return status;
+        goto error;
     }
 
     status = set_context_attributes (context, current, type);
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -232,7 +232,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK
         && status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (type == DISIR_CONTEXT_SECTION)
@@ -248,7 +248,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     else if  (type == DISIR_CONTEXT_KEYVAL)
@@ -257,7 +257,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -268,7 +268,7 @@ finalize:
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -277,6 +277,13 @@ finalize:
     }
 
     return DISIR_STATUS_OK;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+
+    return status;
 }
 
 //! PRIVATE
@@ -704,6 +711,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -711,6 +719,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
-- 
2.43.0


From 73b88e4525db6c1cb163ece007a4635717b50155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 050/162] fix: reading a JSON config that is not an object
 leaks the config

---
 lib/fslib/json/json_unserialize_config.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 5de4444..24fa96a 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -67,6 +67,13 @@ ConfigReader::construct_config (Json::Value& root, struct disir_config **config)
 
     *config = NULL;
 
+    if (root.isObject () == false)
+    {
+        disir_error_set (m_disir, "Config should be of type object, got %s",
+                                  json_valuetype_stringify (root.type ()));
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+
     status = dc_config_begin (m_mold, &context_config);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 47b1570890dd81be1814d1db693e1c88a0fa8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 051/162] fix: elements with an empty name or a NUL in their
 name are valid

---
 lib/validate.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..8f2bba3 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -535,13 +535,20 @@ validate_name (struct disir_context *context)
     enum disir_status status;
     const char *name;
     const char *c;
+    int32_t size;
 
     log_debug_context(2, context, "validating name");
 
-    status = dc_get_name (context, &name, NULL);
+    status = dc_get_name (context, &name, &size);
     if (status != DISIR_STATUS_OK)
         return status;
 
+    if (name == NULL || *name == '\0')
+    {
+        dx_log_context (context, "name is missing.");
+        return DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
     // Deny names that are not a-z or _
     c = name;
     while (*c)
@@ -567,6 +574,12 @@ validate_name (struct disir_context *context)
         break;
     }
 
+    if (status == DISIR_STATUS_OK && c - name != size)
+    {
+        dx_log_context (context, "name contains a terminating character.");
+        status = DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
     return status;
 }
 
-- 
2.43.0


From 13fc0c25584bc51b80709bd75fcf86d2039711f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 052/162] fix: dc_set_name takes a missing name or a negative
 size

---
 lib/context.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index c026aa5..dc54bf9 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -514,7 +514,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     max = 0;
     invalid = DISIR_STATUS_OK;
 
-    TRACE_ENTER ("context (%p), name (%s), name_size (%d)", context, name, name_size);
+    TRACE_ENTER ("context (%p), name (%p), name_size (%d)", context, name, name_size);
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -529,6 +529,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    if (name == NULL || name_size <= 0)
+    {
+        log_debug (0, "invoked with no name (name %p, name_size %d)", name, name_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Entries are indexed by name in their parent once finalized.
     if (context->CONTEXT_STATE_FINALIZED)
     {
-- 
2.43.0


From 5373936b587a57b7e88650a80f7c91a96a9a942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 053/162] fix: names in a config are looked up beyond their
 given size

---
 lib/context.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index dc54bf9..cf58cff 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -509,6 +509,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     int max;
     int current_entries_count;
     struct disir_collection *collection;
+    char *key;
 
     collection = NULL;
     max = 0;
@@ -545,9 +546,17 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_set_mold_equiv (context, name, name_size);
+        // The name is not required to be terminated at its size
+        key = strndup (name, name_size);
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
+
+        invalid = dx_set_mold_equiv (context, key, name_size);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
+            free (key);
             return invalid;
         }
         // If NOT EXIST, let it through and set name but mark context as invalid
@@ -563,18 +572,21 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         {
             // check if number of elements in parent exceed size of restriction
             dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
+            dc_find_elements (context->cx_parent_context, key, &collection);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
-                          name, max, current_entries_count);
+                          key, max, current_entries_count);
             if (max != 0 && max <= current_entries_count)
             {
                 dx_context_error_set (context, "maximum instances of %d exceeded", max);
+                free (key);
                 return DISIR_STATUS_RESTRICTION_VIOLATED;
             }
         }
+
+        free (key);
     }
 
     if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
-- 
2.43.0


From 8dedb7a1bed8ab7294585956f35f40314f665758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 054/162] fix: TOML names and strings are cut at a NUL
 character

---
 lib/fslib/toml/toml_unserialize.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 4867ece..74fc34b 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -48,6 +48,13 @@ dio_toml_parse_table (struct disir_instance *instance, const toml::Value& table,
     // Iterate the table, man
     for (const auto& kv : table.as<toml::Table> ())
     {
+        if (kv.first.find ('\0') != std::string::npos)
+        {
+            disir_error_set (instance, "TOML: Key '%s' contains a NUL character.", kv.first.c_str ());
+            status = DISIR_STATUS_INVALID_ARGUMENT;
+            break;
+        }
+
         status = dio_toml_unserialize_all (instance, kv.first.c_str (), kv.second, parent);
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
@@ -107,14 +114,14 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         std::string str = value.as<std::string>();
         if (dc_value_type (context) == DISIR_VALUE_TYPE_ENUM)
         {
-            status = dc_set_value_enum (context, str.c_str(), strlen (str.c_str()));
+            status = dc_set_value_enum (context, str.c_str(), str.size ());
         }
         else
         {
             // Default to setting string type, regardless of the mold equivalent.
             // That way, if we have any error with regards to type, the context
             // will be assumed string type.
-            status = dc_set_value_string (context, str.c_str(), strlen (str.c_str()));
+            status = dc_set_value_string (context, str.c_str(), str.size ());
         }
         break;
     }
-- 
2.43.0


From 529cc71716f832c3310f19ded06787d0477a0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 055/162] fix: names and enum values with a NUL inside pass for
 what comes before it

---
 lib/context.c       | 7 ++++++-
 lib/context_value.c | 5 ++++-
 lib/validate.c      | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index cf58cff..445afab 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -967,7 +967,12 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
-    status = dx_element_storage_get_first (storage, value, &queried);
+    status = DISIR_STATUS_NOT_EXIST;
+    // A name with a NUL inside is not the name it starts with
+    if (strlen (value) == (size_t) value_size)
+    {
+        status = dx_element_storage_get_first (storage, value, &queried);
+    }
     if (status != DISIR_STATUS_OK)
     {
         // Did not find the element with that name
diff --git a/lib/context_value.c b/lib/context_value.c
index ad89532..a22c5fb 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -821,7 +821,10 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     {
         // Only the first value_size bytes make up the value
         char *terminated = (value == NULL ? NULL : strndup (value, value_size));
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, terminated);
+        // A value with a NUL inside is not the value it starts with
+        int complete = (terminated != NULL && strlen (terminated) == (size_t) value_size);
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0,
+                                                        complete ? terminated : NULL);
         free (terminated);
     }
 
diff --git a/lib/validate.c b/lib/validate.c
index 8f2bba3..b69d8e5 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -193,8 +193,12 @@ validate_exclusive_restrictions (struct disir_context *context)
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
+        const struct disir_value *value = &context->cx_keyval->kv_value;
+
+        // A value with a NUL inside is not the value it starts with
         status = dx_restriction_exclusive_value_check (context, 0, 0,
-                                                       context->cx_keyval->kv_value.dv_string);
+            (value->dv_string != NULL && strlen (value->dv_string) == (size_t) value->dv_size)
+            ? value->dv_string : NULL);
         break;
     }
     case DISIR_VALUE_TYPE_STRING:
-- 
2.43.0


From e3e8924cab0f91c261784746856ca0a662b384f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 056/162] fix: JSON documents end early at a byte 0xff

---
 3rdparty/jsoncpp/jsoncpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index eaa60df..c338c56 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -301,7 +301,8 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
   // Since JSONCPP_STRING is reference-counted, this at least does not
   // create an extra copy.
   JSONCPP_STRING doc;
-  std::getline(sin, doc, (char)EOF);
+  // A delimiter would end the document early at a byte of the same value.
+  doc.assign(std::istreambuf_iterator<char>(sin), std::istreambuf_iterator<char>());
 
   // The error locations point into the document, so it must outlive this call.
   document_.swap(doc);
-- 
2.43.0


From eda76b41433d44ef3bd22c8f302aa7f9ef417b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 057/162] fix: JSON names are cut at a NUL character

---
 3rdparty/jsoncpp/jsoncpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index c338c56..e8ec040 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -3636,7 +3636,7 @@ Value& Value::resolveReference(char const* key, char const* cend)
   ObjectValues::value_type defaultValue(actualKey, nullSingleton());
   it = value_.map_->insert(it, defaultValue);
   Value& value = (*it).second;
-  order->push_back (std::make_pair(actualKey.data(), &value));
+  order->push_back (std::make_pair(JSONCPP_STRING(key, cend), &value));
   return value;
 }
 
-- 
2.43.0


From 7dac86fc3597f28533241870bace8e60d524761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 058/162] fix: copying an error message overruns or misjudges
 the buffer

---
 lib/error.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..df3b6a3 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -60,7 +60,6 @@ enum disir_status
 disir_error_copy (struct disir_instance *instance,
                   char *buffer, int32_t buffer_size, int32_t *bytes_written)
 {
-    enum disir_status status;
     int32_t size;
 
     if (instance == NULL || buffer == NULL)
@@ -68,14 +67,13 @@ disir_error_copy (struct disir_instance *instance,
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    status = DISIR_STATUS_OK;
-
-    if (buffer_size < 4)
+    // The storage may be larger than the message it holds
+    size = 0;
+    if (instance->disir_error_message != NULL)
     {
-        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+        size = strlen (instance->disir_error_message);
     }
 
-    size = instance->disir_error_message_size;
     if (bytes_written)
     {
         // Write the total size of the error message
@@ -83,21 +81,24 @@ disir_error_copy (struct disir_instance *instance,
         // buffer will be filled with partial error message
         *bytes_written = size;
     }
-    if (buffer_size <= size)
+
+    if (buffer_size > size)
     {
-        size -= 4;
-        status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
+        if (size > 0)
+        {
+            memcpy (buffer, instance->disir_error_message, size);
+        }
+        buffer[size] = '\0';
+        return DISIR_STATUS_OK;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
-    if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
+    if (buffer_size >= 4)
     {
-        sprintf (buffer + size, "...");
-        size += 3;
+        memcpy (buffer, instance->disir_error_message, buffer_size - 4);
+        memcpy (buffer + buffer_size - 4, "...", 4);
     }
-    buffer[size] = '\0';
 
-    return status;
+    return DISIR_STATUS_INSUFFICIENT_RESOURCES;
 }
 
 //! PUBLIC API
-- 
2.43.0


From 81ebc5d288c47c3caee91691ecb927b350f7246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 059/162] fix: an error message that quotes the previous one
 reads freed memory

---
 lib/log.c | 61 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 9db4576..30809d4 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -213,6 +213,7 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
 {
     int message_size;
     int res;
+    char *message;
     char dummy[4];
     va_list args_copy;
 
@@ -233,27 +234,28 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
         return;
     }
 
-    // Allocate sufficiently large buffer, write message
-    if (*error_message_size < message_size + 1)
+    // The arguments may refer to the message currently stored,
+    // so it must be in place until the new one is written.
+    message = malloc (message_size + 1);
+    if (message == NULL)
     {
-        *error_message = realloc (*error_message, message_size + 1);
-        if (*error_message == NULL)
-        {
-            // What should we do!? Throw a tantrum!?
-            return;
-        }
-        *error_message_size = message_size + 1;
+        // What should we do!? Throw a tantrum!?
+        return;
     }
 
-    res = vsnprintf (*error_message, message_size + 1, fmt_message, args);
+    res = vsnprintf (message, message_size + 1, fmt_message, args);
 
     // Put a null terminator to it.
-    (*error_message)[message_size] = '\0';
+    message[message_size] = '\0';
 
     if (res < 0 || res > message_size)
     {
         // Another error case to report.. If only i had memory..
     }
+
+    free (*error_message);
+    *error_message = message;
+    *error_message_size = message_size + 1;
 }
 
 //! INTERNAL API
@@ -325,22 +327,6 @@ dx_log_disir (enum disir_log_level dll,
     prefix = NULL;
     suffix = NULL;
 
-    if (log_context)
-    {
-        va_copy (args_copy, args);
-        dx_context_error_set_va (context, fmt_message, args_copy);
-        va_end (args_copy);
-    }
-
-    if (instance != NULL)
-    {
-        va_copy (args_copy, args);
-
-        dx_internal_log_to_storage (&instance->disir_error_message,
-                                    &instance->disir_error_message_size, fmt_message, args_copy);
-        va_end (args_copy);
-    }
-
     if (context)
     {
         //! Prepare the log prefix message.
@@ -379,11 +365,30 @@ dx_log_disir (enum disir_log_level dll,
         }
     }
 
+    va_copy (args_copy, args);
     dx_log_format (dll,
             severity,
             (prefix != NULL ? prefix : message_prefix),
             (suffix != NULL ? suffix : ""),
             fmt_message,
-            args);
+            args_copy);
+    va_end (args_copy);
+
+    // Storing a message releases the previous one, which the arguments may refer to.
+    if (log_context)
+    {
+        va_copy (args_copy, args);
+        dx_context_error_set_va (context, fmt_message, args_copy);
+        va_end (args_copy);
+    }
+
+    if (instance != NULL)
+    {
+        va_copy (args_copy, args);
+
+        dx_internal_log_to_storage (&instance->disir_error_message,
+                                    &instance->disir_error_message_size, fmt_message, args_copy);
+        va_end (args_copy);
+    }
 }
 
-- 
2.43.0


From 01d096991b969a07f0010f6620790a2303242824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:58 +0000
Subject: [PATCH 060/162] fix: asking for or clearing the error message of no
 instance crashes

---
 lib/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index df3b6a3..ee3a83c 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -47,7 +47,7 @@ disir_error_set (struct disir_instance *instance, const char *message, ...)
 void
 disir_error_clear (struct disir_instance *instance)
 {
-    if (instance->disir_error_message_size != 0)
+    if (instance != NULL && instance->disir_error_message_size != 0)
     {
         instance->disir_error_message_size = 0;
         free (instance->disir_error_message);
@@ -105,6 +105,6 @@ disir_error_copy (struct disir_instance *instance,
 const char *
 disir_error (struct disir_instance *instance)
 {
-    return instance->disir_error_message;
+    return instance == NULL ? NULL : instance->disir_error_message;
 }
 
-- 
2.43.0


From f8d12eee9b90881e31e31e7c20c4d66972de6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 061/162] fix: dc_set_value reads beyond the given size or a
 missing value

---
 lib/context_value.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index a22c5fb..c09b0d9 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -220,10 +220,13 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     long int parsed_integer;
     double parsed_float;
     char *endptr;
+    char *terminated;
     char c;
 
     TRACE_ENTER ("context (%p) value (%p) value_size (%d)", context, value, value_size);
 
+    terminated = NULL;
+
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
     {
@@ -246,6 +249,20 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         status = DISIR_STATUS_WRONG_CONTEXT;
         goto error;
     }
+    if (value == NULL || value_size < 0)
+    {
+        dx_context_error_set (context, "cannot set value from NULL or negative sized input.");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
+
+    // Only the first value_size bytes make up the value
+    terminated = strndup (value, value_size);
+    if (terminated == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     switch (dc_value_type (context))
     {
@@ -258,7 +275,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     {
         // Handles single character input 1/0, t/f and T/F.
         // XXX: Falsely identifies input fLOL as false and tROFL as true.
-        c = *value;
+        c = *terminated;
         parsed_boolean = 2;
         if (c == '0')
         {
@@ -289,8 +306,8 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_INTEGER:
     {
-        parsed_integer = strtol (value, &endptr, 10);
-        if (value == endptr)
+        parsed_integer = strtol (terminated, &endptr, 10);
+        if (terminated == endptr)
         {
             status = DISIR_STATUS_INVALID_ARGUMENT;
         }
@@ -302,8 +319,8 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_FLOAT:
     {
-        parsed_float = strtod (value, &endptr);
-        if (value == endptr)
+        parsed_float = strtod (terminated, &endptr);
+        if (terminated == endptr)
         {
             status = DISIR_STATUS_INVALID_ARGUMENT;
         }
@@ -327,6 +344,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
 
     // FALL-THROUGH
 error:
+    free (terminated);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 9ce5c2dbefde62119e0d31e09834790a2af9a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 062/162] fix: dc_set_value takes numbers out of range as other
 numbers

---
 lib/context_value.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index c09b0d9..cdafe87 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -4,6 +4,8 @@
 #include <string.h>
 #include <stdio.h>
 #include <ctype.h>
+#include <errno.h>
+#include <math.h>
 
 // Public disir interface
 #include <disir/disir.h>
@@ -306,8 +308,9 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_INTEGER:
     {
+        errno = 0;
         parsed_integer = strtol (terminated, &endptr, 10);
-        if (terminated == endptr)
+        if (terminated == endptr || errno == ERANGE)
         {
             status = DISIR_STATUS_INVALID_ARGUMENT;
         }
@@ -319,8 +322,9 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_FLOAT:
     {
+        errno = 0;
         parsed_float = strtod (terminated, &endptr);
-        if (terminated == endptr)
+        if (terminated == endptr || (errno == ERANGE && isinf (parsed_float)))
         {
             status = DISIR_STATUS_INVALID_ARGUMENT;
         }
-- 
2.43.0


From 79e35d0fbea65871ceae40d8c015408eb0eade79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 063/162] fix: getting a value as text into a buffer of
 negative size overruns it

---
 lib/util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 5f6f20a..1be2b40 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -183,6 +183,13 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     int32_t size;
 
     status = DISIR_STATUS_OK;
+    size = 0;
+
+    if (output_buffer_size < 0)
+    {
+        output_buffer_size = 0;
+    }
+
     switch (value->dv_type)
     {
     case DISIR_VALUE_TYPE_ENUM:
-- 
2.43.0


From 59088dbcc333d4daa44e365671fba161edaefc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 064/162] fix: setting text of negative size crashes

---
 lib/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 1be2b40..dbf95e5 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -492,6 +492,11 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
         dx_value_clear (value);
         return DISIR_STATUS_OK;
     }
+    if (size < 0)
+    {
+        log_debug (0, "invoked with negative size (%d)", size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
     // Size of requested string + 1 for NULL terminator (which calloc provides).
     // The input may be the very string we hold, so copy it before releasing ours.
-- 
2.43.0


From 510f2cfe05dc0c374614615841e90d501b400936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 065/162] fix: booleans that are neither 0 nor 1 do not survive
 being written

---
 lib/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.c b/lib/util.c
index dbf95e5..55e2df3 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -366,7 +366,7 @@ dx_value_set_boolean (struct disir_value *value, uint8_t boolean)
         return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
-    value->dv_boolean = boolean;
+    value->dv_boolean = (boolean ? 1 : 0);
     return DISIR_STATUS_OK;
 }
 
-- 
2.43.0


From c178109359e1f2be9359e043172a2b1d097f92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 066/162] fix: a finalized context can be finalized again,
 entering its parent twice

---
 lib/context.c        | 7 +++++++
 lib/context_config.c | 6 ++++++
 lib/context_mold.c   | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 445afab..2e65eba 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -339,6 +339,13 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    // A context is submitted to its parent once.
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (*context, "cannot finalize a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
diff --git a/lib/context_config.c b/lib/context_config.c
index 1d44acd..a7b552e 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -103,6 +103,12 @@ dc_config_finalize (struct disir_context **context, struct disir_config **config
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (*context, "cannot finalize a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Perform full config validation.
     status = dx_validate_context (*context);
     // Only set state if the validate operation went as planned
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 09cbb2d..2ac3fd8 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -90,6 +90,12 @@ dc_mold_finalize (struct disir_context **context, struct disir_mold **mold)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (*context, "cannot finalize a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Perform full mold validation.
     status = dx_validate_context (*context);
     // Only set state if the validate operation went as planned
-- 
2.43.0


From 3c95067fbf803f10fffc1fa5965314390cba80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 067/162] fix: dc_finalize_keep_reference leaks a reference
 when refused

---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 2e65eba..6346ab9 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -442,7 +442,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (status != DISIR_STATUS_OK && context && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
-- 
2.43.0


From 21920893e49d2b5432a5306cc9babeb18cb6624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 068/162] fix: setting a value type crashes on non-keyvals and
 is allowed with defaults of another type

---
 lib/context_util.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..53a3ac5 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -484,15 +484,21 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     {
     case DISIR_CONTEXT_KEYVAL:
     {
-        //TODO XXX: Cannot set type if keyval has defaults
-        //TODO XXX: Cannot set type if toplevel context is not DISIR_MOLD
+        // Defaults are of the type the keyval had when they were added
+        if (context->cx_keyval->kv_value.dv_type != type &&
+            (context->CONTEXT_STATE_FINALIZED || context->cx_keyval->kv_default_queue != NULL))
+        {
+            dx_context_error_set (context, "cannot change value type of a keyval with defaults");
+            return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+        }
         context->cx_keyval->kv_value.dv_type = type;
         break;
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type on %s",
+                              dc_context_type_string (context));
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From 9eb451693a7de327b64b8a7bb61aa74b82cfd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 069/162] fix: introducing a finalized entry anew breaks its
 parent's order

---
 lib/context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 6346ab9..70bb692 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -1055,6 +1055,13 @@ dc_add_introduced (struct disir_context *context, struct disir_version *version)
     // it should perhaps be deined (or permiteted with INVALID CONTEXT
     // if parent is constructing)
 
+    // Entries are ordered by version in their parent once finalized.
+    if (context->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_error_set (context, "cannot add introduced version to a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     status = context_get_introduced_structure (context, &introduced);
     if (status == DISIR_STATUS_OK)
     {
-- 
2.43.0


From 04dfc081bee7fa8f0ad4cf394dae5a60a55a561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 070/162] fix: deprecating a finalized entry does not raise the
 version of its mold

---
 lib/context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 70bb692..8c32ce4 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -1126,6 +1126,12 @@ dc_add_deprecated (struct disir_context *context, struct disir_version *version)
         deprecated->sv_major = version->sv_major;
         deprecated->sv_minor = version->sv_minor;
 
+        // Entries not yet finalized submit their version to the mold when they are.
+        if (context->CONTEXT_STATE_FINALIZED)
+        {
+            dx_mold_update_version (context->cx_root_context->cx_mold, deprecated);
+        }
+
         log_debug_context (6, context, "adding deprecated to root(%s): %s",
                                        dc_context_type_string (context->cx_root_context),
                                        dc_version_string (buffer, 32, version));
-- 
2.43.0


From 5435defd734c31cb3cfc5cd832a00fa2ca6d0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 071/162] fix: asking a destroyed context for its entry limits
 crashes

---
 lib/context_restriction.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index e508d69..4aa5112 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1283,6 +1283,10 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
-- 
2.43.0


From 2a9393721accbcdd69ab87ee4cb4ef34c59152ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 072/162] fix: asking a config for its documentation aborts

---
 lib/context_documentation.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 2e245b4..a7c8761 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -207,7 +207,6 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
         return status;
     }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL,
-                                          DISIR_CONTEXT_CONFIG,
                                           DISIR_CONTEXT_SECTION,
                                           DISIR_CONTEXT_RESTRICTION,
                                           DISIR_CONTEXT_MOLD);
-- 
2.43.0


From f0ba2ec7b33c38ec913b9148f1b5314c6a9c5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 073/162] fix: adding an enum restriction where none fits
 destroys an unset context

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 4aa5112..0af4020 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -886,7 +886,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From 5734fc3a6ccf537b278fc254f162ee3a951699eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 074/162] fix: finalizing an untyped restriction on a finalized
 keyval aborts

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index b69d8e5..95b61ea 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -482,7 +482,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From 6c5c1bfd3042f7dc07aad03200b48ad5ff74205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 075/162] fix: a fatally wrong entry can be added to a
 finalized parent

---
 lib/validate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 95b61ea..d018ea5 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -799,7 +799,10 @@ dx_validate_context (struct disir_context *context)
         log_debug_context (1, context, "in fatal state - not valid");
         context->CONTEXT_STATE_INVALID = 1;
         status = DISIR_STATUS_FATAL_CONTEXT;
-        if (context->CONTEXT_STATE_CONSTRUCTING)
+        // A finalized parent does not accept any entry that would make it invalid
+        if (context->CONTEXT_STATE_CONSTRUCTING &&
+            (context->cx_parent_context == NULL ||
+             context->cx_parent_context->CONTEXT_STATE_FINALIZED == 0))
         {
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
-- 
2.43.0


From b6473f90cd2fc4cda0dd52e145c6afd1d258a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 076/162] fix: restriction queries on config entries without a
 mold equivalent crash

---
 lib/context_restriction.c | 20 ++++++++++++++++++++
 lib/generate.c            |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 0af4020..1965794 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1301,6 +1301,11 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+            {
+                log_debug_context (1, context, "has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             q = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
             element_introduced = &context->cx_section->se_mold_equiv->cx_section->se_introduced;
             element_deprecated = &context->cx_section->se_mold_equiv->cx_section->se_deprecated;
@@ -1318,6 +1323,11 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         struct disir_keyval *keyval_mold;
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+            {
+                log_debug_context (1, context, "has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             q = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
             keyval_mold = context->cx_keyval->kv_mold_equiv->cx_keyval;
         }
@@ -1499,6 +1509,11 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+            {
+                log_debug_context (1, context, "has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             rcol = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
         }
         else
@@ -1511,6 +1526,11 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+            {
+                log_debug_context (1, context, "has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             rcol = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
         }
         else
diff --git a/lib/generate.c b/lib/generate.c
index ec268a7..7feb575 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -261,6 +261,11 @@ dc_generate_from_config_root (struct disir_context *context)
     else
     {
         mold_equiv = context->cx_section->se_mold_equiv;
+        if (mold_equiv == NULL)
+        {
+            dx_context_error_set (context, "section has no mold equivalent");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
     }
     version = &context->cx_root_context->cx_config->cf_version;
 
-- 
2.43.0


From e60c311442ee4e192d23eda0cfb9059f7a05d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 077/162] fix: a refused default stays with its finalized
 keyval

---
 lib/context_default.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 41bf1ab..e63e55f 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -109,7 +109,15 @@ dx_default_finalize (struct disir_context *default_context)
     MQ_ENQUEUE_CONDITIONAL (*queue, def,
         (dc_version_compare (&entry->de_introduced, &def->de_introduced) > 0));
 
-    return dx_validate_context (default_context);
+    status = dx_validate_context (default_context);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // Refused - leave the parent as it was.
+        MQ_REMOVE_SAFE (*queue, def);
+        default_context->CONTEXT_STATE_IN_PARENT = 0;
+    }
+
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From 5f1c86275fc487a132ecb2f2864d0e37c4e5fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:24 +0000
Subject: [PATCH 078/162] fix: asking for the type of a destroyed context
 crashes

---
 lib/context_restriction.c | 5 +++--
 lib/context_util.c        | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 1965794..f1728fd 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -49,14 +49,15 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
-    return disir_restriction_strings[restriction];
+    return disir_restriction_strings[dx_restriction_type_sanify (restriction)];
 }
 
 //! PUBLIC API
 const char *
 dc_restriction_context_string (struct disir_context *context)
 {
-    if (context == NULL || dc_context_type (context) != DISIR_CONTEXT_RESTRICTION)
+    if (context == NULL || context->CONTEXT_STATE_DESTROYED ||
+        dc_context_type (context) != DISIR_CONTEXT_RESTRICTION)
     {
         return disir_restriction_strings[0];
     }
diff --git a/lib/context_util.c b/lib/context_util.c
index 53a3ac5..15b6ff8 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -79,7 +79,7 @@ dc_value_type (struct disir_context *context)
     enum disir_value_type value_type;
     enum disir_context_type context_type;
 
-    if (context == NULL)
+    if (context == NULL || context->CONTEXT_STATE_DESTROYED)
     {
         return DISIR_VALUE_TYPE_UNKNOWN;
     }
-- 
2.43.0


From 3cf0582058e5db86e367f360e701865a426706ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 079/162] fix: destroying a finalized entry through an own
 reference leaks it

---
 lib/context.c                 |  9 +++++++++
 lib/context_config.c          | 20 --------------------
 lib/context_documentation.c   |  2 +-
 lib/context_keyval.c          |  6 +++---
 lib/context_mold.c            | 21 +--------------------
 lib/context_restriction.c     |  2 +-
 lib/context_section.c         | 22 ++--------------------
 lib/context_util.c            | 14 ++++++++++++++
 lib/element_storage.c         | 13 ++++---------
 lib/include/context_private.h |  3 +++
 10 files changed, 38 insertions(+), 74 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 8c32ce4..662d941 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -175,6 +175,7 @@ enum disir_status
 dc_destroy (struct disir_context **context)
 {
     enum disir_status status;
+    struct disir_context *tmp;
 
     // Check arguments
     status = CONTEXT_DOUBLE_NULL_INVALID_TYPE_CHECK (context);
@@ -199,6 +200,14 @@ dc_destroy (struct disir_context **context)
     // Only applicable if CONTEXT_STATE_IN_PARENT
     context_remove_from_parent (context);
 
+    // Release the reference handed over to the parent by dc_finalize.
+    if ((*context)->CONTEXT_STATE_FINALIZED && (*context)->cx_parent_context
+        && (*context)->cx_parent_context != *context && (*context)->cx_refcount > 1)
+    {
+        tmp = *context;
+        dx_context_decref (&tmp);
+    }
+
     log_debug_context (6, *context, "destroying (context: %p - *context: %p", context, *context);
     // Call destroy on the object pointed to by context.
     // This shall destroy the element, and every single child.
diff --git a/lib/context_config.c b/lib/context_config.c
index a7b552e..1037de1 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -172,10 +172,6 @@ error:
 enum disir_status
 dx_config_destroy (struct disir_config **config)
 {
-    enum disir_status status;
-    struct disir_context *context;
-    struct disir_collection *collection;
-
     if (config == NULL || *config == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
@@ -183,22 +179,6 @@ dx_config_destroy (struct disir_config **config)
     disir_mold_finished (&(*config)->cf_mold);
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*config)->cf_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*config)->cf_elements);
 
     free (*config);
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index a7c8761..9c4c909 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -182,7 +182,7 @@ dc_add_documentation (struct disir_context *parent, const char *doc, int32_t doc
         return status;
     }
 
-    status = dx_documentation_finalize (context);
+    status = dc_finalize (&context);
     if (status != DISIR_STATUS_OK)
     {
         dx_context_transfer_logwarn (parent, context);
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 5c930c1..91b3e56 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -403,21 +403,21 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     while ((doc = MQ_POP((*keyval)->kv_documentation_queue)))
     {
         context = doc->dd_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     // Destroy all default entries on the keyval.
     while ((def = MQ_POP((*keyval)->kv_default_queue)))
     {
         context = def->de_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     // Destroy all restrictions
     while ((restriction = MQ_POP ((*keyval)->kv_restrictions_queue)))
     {
         context = restriction->re_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     free (*keyval);
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 2ac3fd8..a98ec30 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -163,10 +163,8 @@ error:
 enum disir_status
 dx_mold_destroy (struct disir_mold **mold)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
 
     if (mold == NULL || *mold == NULL)
     {
@@ -175,30 +173,13 @@ dx_mold_destroy (struct disir_mold **mold)
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*mold)->mo_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
-    // Destroy element storage in the mold.
     dx_element_storage_destroy (&(*mold)->mo_elements);
 
     // Destroy the documentation associated with the mold.
     while ((doc = MQ_POP ((*mold)->mo_documentation_queue)))
     {
         context = doc->dd_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     free (*mold);
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index f1728fd..d9cc008 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -286,7 +286,7 @@ dx_restriction_destroy (struct disir_restriction **restriction)
     while ((doc = MQ_POP((*restriction)->re_documentation_queue)))
     {
         context = doc->dd_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     free (tmp);
diff --git a/lib/context_section.c b/lib/context_section.c
index dd9ab03..275aacb 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -186,10 +186,8 @@ error:
 enum disir_status
 dx_section_destroy (struct disir_section **section)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
     struct disir_restriction *restriction;
 
     if (section == NULL || *section == NULL)
@@ -211,33 +209,17 @@ dx_section_destroy (struct disir_section **section)
     while ((doc = MQ_POP((*section)->se_documentation_queue)))
     {
         context = doc->dd_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*section)->se_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*section)->se_elements);
 
     // Destroy all restrictions
     while ((restriction = MQ_POP ((*section)->se_restrictions_queue)))
     {
         context = restriction->re_context;
-        dc_destroy (&context);
+        dx_context_destroy_child (context);
     }
 
     free (*section);
diff --git a/lib/context_util.c b/lib/context_util.c
index 15b6ff8..6f591eb 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -183,6 +183,20 @@ dx_context_decref (struct disir_context **context)
     }
 }
 
+//! INTERNAL API
+void
+dx_context_destroy_child (struct disir_context *context)
+{
+    // dc_destroy releases both the reference of the caller and, if the child
+    // is finalized, the one of the parent.
+    if (context->CONTEXT_STATE_FINALIZED)
+    {
+        dx_context_incref (context);
+    }
+
+    dc_destroy (&context);
+}
+
 //! INTERNAL API
 struct disir_context *
 dx_context_create (enum disir_context_type type)
diff --git a/lib/element_storage.c b/lib/element_storage.c
index 1d342d3..36d6b3c 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -125,15 +125,10 @@ dx_element_storage_destroy (struct disir_element_storage **storage)
         // Destroying the context will decref our reference on it.
         if (context)
         {
-            // We are destroying a child of us - this dc_destroy call will
-            // remove our reference which we keep in the element storage.
-            // However, the dc_destroy call will reach back into this storage,
-            // removing its reference with a decref. This is to support
-            // removing children from a parent without destroying the parent.
-            // So, we actually have to incref here so that we add one references,
-            // and remove two.
-            dx_context_incref (context);
-            dc_destroy (&context);
+            // We are destroying a child of us - the dc_destroy call will reach back into
+            // this storage, removing the reference we keep in the element storage,
+            // and release the reference of the parent.
+            dx_context_destroy_child (context);
         }
     }
 
diff --git a/lib/include/context_private.h b/lib/include/context_private.h
index a3fc7d3..c5159ef 100644
--- a/lib/include/context_private.h
+++ b/lib/include/context_private.h
@@ -106,6 +106,9 @@ void dx_context_incref (struct disir_context *context);
 //!
 void dx_context_decref (struct disir_context **context);
 
+//! \brief Destroy a child on behalf of its parent, which owns a reference to it.
+void dx_context_destroy_child (struct disir_context *context);
+
 //! Attach 'parent' as parent context to 'context'
 void dx_context_attach (struct disir_context *parent, struct disir_context *context);
 
-- 
2.43.0


From 63025a5e1abd3725e263baf282e2d19ba5b41bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 080/162] fix: a nested section is listed as invalid when only
 its entries are

---
 lib/validate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index d018ea5..c355c5d 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -833,8 +833,11 @@ dx_validate_context (struct disir_context *context)
         }
 
         // we are returning status as-is.
-        // but we are invalid, so mark us as invalid
-        context->CONTEXT_STATE_INVALID = 1;
+        // but we are invalid, so mark us as invalid - unless only our children are.
+        if (status != DISIR_STATUS_ELEMENTS_INVALID)
+        {
+            context->CONTEXT_STATE_INVALID = 1;
+        }
     }
     // We are invalid - mark us as such.
     // ELEMENTS_INVALID does NOT put the calling context into invalid state.
-- 
2.43.0


From e7ebca0cedc49bcd43e354f57cbc3f62fbf09031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 081/162] fix: the cleanup of a plugin is handed its storage
 instead of itself

---
 lib/disir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..0cd6d11 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -328,7 +328,7 @@ disir_instance_destroy (struct disir_instance **instance)
         // Call cleanup method specified by plugin.
         if (plugin->pi_plugin.dp_plugin_finished)
         {
-            plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
+            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
         dlclose (plugin->pi_dl_handler);
-- 
2.43.0


From 1eaf0a05a40ac1bbe5db8f93bedabc1f9bf47bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 082/162] fix: destroying an instance closes a library that was
 never opened

---
 lib/disir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 0cd6d11..613f523 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -331,7 +331,8 @@ disir_instance_destroy (struct disir_instance **instance)
             plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        if (plugin->pi_dl_handler)
+            dlclose (plugin->pi_dl_handler);
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
-- 
2.43.0


From f0b6a466003cd63e632e8226f9cb1e1c6f52e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 083/162] fix: a registered plugin does not own its base
 directories

---
 lib/disir.c        | 11 ++++++++---
 lib/disir_plugin.c | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 613f523..a327a59 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -31,6 +31,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     struct disir_register_plugin_internal *internal;
     plugin_register dio_reg;
 
+    // Populate the plugin object
+    memset (&plugin, 0, sizeof (struct disir_register_plugin));
+
     // Attempt to load the filepath dynamically
     handle = dlopen (plugin_filepath, RTLD_NOW | RTLD_LOCAL);
     if (handle == NULL)
@@ -52,9 +55,6 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
 
-    // Populate the plugin object
-    memset (&plugin, 0, sizeof (struct disir_register_plugin));
-
     if (config_base_id)
         plugin.dp_config_base_id = strndup (config_base_id, 512);
     if (mold_base_id)
@@ -90,8 +90,13 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     internal->pi_dl_handler = handle;
     internal->pi_filepath = strndup (plugin_filepath, 512);
 
+    free (plugin.dp_config_base_id);
+    free (plugin.dp_mold_base_id);
+
     return DISIR_STATUS_OK;
 error:
+    free (plugin.dp_config_base_id);
+    free (plugin.dp_mold_base_id);
     if (handle)
     {
         dlclose (handle);
diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..e05ff45 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -45,6 +45,14 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     // Copy the plugin input structure verbatim to our internal copy.
     memcpy (&internal->pi_plugin, plugin, sizeof (*plugin));
 
+    // None of the strings of the input plugin are ours.
+    internal->pi_plugin.dp_name = NULL;
+    internal->pi_plugin.dp_description = NULL;
+    internal->pi_plugin.dp_config_entry_type = NULL;
+    internal->pi_plugin.dp_mold_entry_type = NULL;
+    internal->pi_plugin.dp_config_base_id = NULL;
+    internal->pi_plugin.dp_mold_base_id = NULL;
+
     internal->pi_io_id = strdup (io_id);
     internal->pi_group_id = strdup (group_id);
 
@@ -55,6 +63,10 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     PLUGIN_STRING_MEMBER_COPY (dp_description);
     PLUGIN_STRING_MEMBER_COPY (dp_config_entry_type);
     PLUGIN_STRING_MEMBER_COPY (dp_mold_entry_type);
+    if (plugin->dp_config_base_id)
+        PLUGIN_STRING_MEMBER_COPY (dp_config_base_id);
+    if (plugin->dp_mold_base_id)
+        PLUGIN_STRING_MEMBER_COPY (dp_mold_base_id);
 
     log_info ("[register plugin] name: %s", internal->pi_plugin.dp_name);
     log_info ("[register plugin] description: %s", internal->pi_plugin.dp_description);
@@ -68,6 +80,26 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     return DISIR_STATUS_OK;
 
 error:
+    if (internal == NULL)
+    {
+        return status;
+    }
+    if (internal->pi_io_id)
+    {
+        free (internal->pi_io_id);
+    }
+    if (internal->pi_group_id)
+    {
+        free (internal->pi_group_id);
+    }
+    if (internal->pi_plugin.dp_config_base_id)
+    {
+        free (internal->pi_plugin.dp_config_base_id);
+    }
+    if (internal->pi_plugin.dp_mold_base_id)
+    {
+        free (internal->pi_plugin.dp_mold_base_id);
+    }
     if (internal->pi_plugin.dp_name)
     {
         free (internal->pi_plugin.dp_name);
@@ -84,10 +116,7 @@ error:
     {
         free (internal->pi_plugin.dp_mold_entry_type);
     }
-    if (internal)
-    {
-        free (internal);
-    }
+    free (internal);
 
     return status;
 }
-- 
2.43.0


From 5ac9a208a09147d30eec7b492f36d55fb987c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 084/162] fix: removing through a plugin that cannot remove
 calls NULL

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..ede4f27 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            log_debug (1, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
-- 
2.43.0


From 9ce24b383ded63c479e3fe8884e8b030173fa2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 085/162] fix: writing or removing an empty entry id reads in
 front of it

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index ede4f27..64c96ba 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 345af103654069b889d37bcd67fc6c6287fcf770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 086/162] fix: a failed plugin query is logged without its
 status argument

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 64c96ba..17a1d71 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..0883a54 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
-- 
2.43.0


From c7f31e88ae049243f06a9836817da53ae8b647e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 087/162] fix: writing a mold to an unknown group formats a
 missing argument

---
 lib/disir_mold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 0883a54..815f543 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -153,7 +153,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id, entry_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From ac2ed6c0dd82487db2bc38ec507cc20f1f442343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 088/162] fix: reading or writing a mold without a group
 crashes

---
 lib/disir_mold.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 815f543..396a333 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -113,10 +113,11 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
-        log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
-                      instance, entry_id, mold);
+        log_debug (0, "invoked with NULL argument(s)." \
+                      " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
+                      instance, group_id, entry_id, mold);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 399c14cdee087320532ad1f58b44ab72230ae831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 089/162] fix: listing entries that several plugins provide
 does not end

---
 lib/disir_config.c | 4 ++++
 lib/disir_mold.c   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 17a1d71..6fcee40 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -309,6 +309,10 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
 
             query = current->next;
 
+            // Detach the entry from the list the plugin returned
+            current->next = NULL;
+            current->prev = NULL;
+
             if (multimap_contains_key (map, (void *)current->de_entry_name) == 0)
             {
                 // Add entry to queue
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 396a333..70da1fc 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -228,6 +228,10 @@ disir_mold_entries (struct disir_instance *instance,
 
             query = current->next;
 
+            // Detach the entry from the list the plugin returned
+            current->next = NULL;
+            current->prev = NULL;
+
             if (multimap_contains_key (map, (void *)current->de_entry_name) == 0)
             {
                 // Add entry to queue
-- 
2.43.0


From 60a3978ecdd8c29f8c3d678d0fc8a8cb5c7eca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 090/162] fix: one failing plugin fails the listing of all
 config entries

---
 lib/disir_config.c | 6 ++----
 lib/disir_mold.c   | 1 +
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 6fcee40..d7c3d94 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -247,7 +247,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
                       struct disir_entry **entries)
 {
     enum disir_status status;
-    enum disir_status retstatus;
     struct multimap *map;
     struct disir_entry *queue;
     struct disir_entry *query;
@@ -256,7 +255,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
     queue = NULL;
     query = NULL;
     current = NULL;
-    retstatus = DISIR_STATUS_OK;
 
     if (instance == NULL || group_id == NULL || entries == NULL)
     {
@@ -291,6 +289,7 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
+        query = NULL;
         status = entry->pi_plugin.dp_config_entries (instance,
                                                      &entry->pi_plugin, &query);
         if (status != DISIR_STATUS_OK)
@@ -298,7 +297,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             log_warn ("Plugin '%s' queried for config entries failed with status: %s",
                       entry->pi_io_id, disir_status_string (status));
             entry = entry->next;
-            retstatus = status;
             continue;
         }
 
@@ -331,7 +329,7 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
 
     *entries = queue;
 
-    status = retstatus;
+    status = DISIR_STATUS_OK;
     // FALL-THROUGH
 out:
     if (map)
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 70da1fc..b740fd7 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -212,6 +212,7 @@ disir_mold_entries (struct disir_instance *instance,
             continue;
         }
 
+        query = NULL;
         status = entry->pi_plugin.dp_mold_entries (instance, &entry->pi_plugin, &query);
         if (status != DISIR_STATUS_OK)
         {
-- 
2.43.0


From 583a13c54b85929aadedbf99f9b7f406b0c0f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 091/162] fix: querying an entry asks only the last plugin of
 the group

---
 lib/disir_config.c | 22 +++++++++++++++-------
 lib/disir_mold.c   | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index d7c3d94..ece8114 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -345,9 +345,11 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
                     const char *entry_id, struct disir_entry **entry_internal)
 {
     enum disir_status status;
+    enum disir_status query_status;
     struct disir_register_plugin_internal *plugin;
 
     plugin = NULL;
+    status = DISIR_STATUS_NOT_EXIST;
 
     if (instance == NULL || group_id == NULL || entry_id == NULL)
     {
@@ -377,19 +379,25 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
+        query_status = entry->pi_plugin.dp_config_query (instance, &entry->pi_plugin,
+                                                        entry_id, entry_internal);
+        if (query_status == DISIR_STATUS_EXISTS)
+        {
+            status = query_status;
+            break;
+        }
+        if (query_status != DISIR_STATUS_NOT_EXIST)
+        {
+            log_warn ("Plugin '%s' config_query failed with status: %s",
+                      entry->pi_io_id, disir_status_string (query_status));
+            status = query_status;
+        }
     }));
 
     if (plugin)
     {
         // QUESTION: Should this abstraction check if there is a mold available before
         // issuing the config query? Or handle it individually in the plugins?
-        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
-                                                    entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
-        {
-            log_warn ("Plugin '%s' config_query failed with status: %s",
-                      plugin->pi_io_id, disir_status_string (status));
-        }
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index b740fd7..c3d17c0 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -267,9 +267,11 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
                   const char *entry_id, struct disir_entry **entry_internal)
 {
     enum disir_status status;
+    enum disir_status query_status;
     struct disir_register_plugin_internal *plugin;
 
     plugin = NULL;
+    status = DISIR_STATUS_NOT_EXIST;
 
     if (instance == NULL || group_id == NULL || entry_id == NULL)
     {
@@ -299,17 +301,23 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
+        query_status = entry->pi_plugin.dp_mold_query (instance, &entry->pi_plugin,
+                                                        entry_id, entry_internal);
+        if (query_status == DISIR_STATUS_EXISTS)
+        {
+            status = query_status;
+            break;
+        }
+        if (query_status != DISIR_STATUS_NOT_EXIST)
+        {
+            log_warn ("Plugin '%s' mold_query failed with status: %s",
+                      entry->pi_io_id, disir_status_string (query_status));
+            status = query_status;
+        }
     }));
 
     if (plugin)
     {
-        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
-                                                  entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
-        {
-            log_warn ("Plugin '%s' config_query failed with status: %s",
-                      plugin->pi_io_id, disir_status_string (status));
-        }
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
-- 
2.43.0


From 0db11238cbd530c6959477c281c08140140eb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 092/162] fix: writing a mold does not validate its entry id
 and reaches outside the mold directory

---
 include/disir/fslib/util.h |  9 +++++++++
 lib/fslib/query.cc         | 22 ++++++++++++++++++----
 lib/fslib/write.c          |  7 +++++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/disir/fslib/util.h b/include/disir/fslib/util.h
index f779836..9b501ab 100644
--- a/include/disir/fslib/util.h
+++ b/include/disir/fslib/util.h
@@ -117,6 +117,15 @@ enum disir_status
 fslib_stat_filepath (struct disir_instance *instance,
                      const char *filepath, struct stat *statbuf);
 
+//! \brief Check that the entry_id only consists of the characters an entry_id may have.
+//!
+//! \return DISIR_STATUS_RESTRICTION_VIOLATED if entry_id is ill-formed.
+//! \return DISIR_STATUS_OK if the entry_id is well-formed.
+//!
+DISIR_EXPORT
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id);
+
 //! \brief Recursively query basedir for matching plugin entries.
 //!
 //! \return DISIR_STATUS_OK regardless of query operation
diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..9c2fc7d 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -30,6 +30,21 @@ validate_entry_id_characters(std::string& entry_id)
     return (illegal == entry_id.end());
 }
 
+//! FSLIB API
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id)
+{
+    std::string eid(entry_id);
+
+    if (!validate_entry_id_characters(eid))
+    {
+        disir_error_set (instance, "entry_id is ill-formed");
+        return DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! FSLIB API
 enum disir_status
 fslib_config_query_entries (struct disir_instance *instance, struct disir_register_plugin *plugin,
@@ -377,11 +392,10 @@ fslib_plugin_mold_query (struct disir_instance *instance, struct disir_register_
     int namespace_entry;
     struct stat statbuf;
 
-    std::string eid(entry_id);
-    if (!validate_entry_id_characters(eid))
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
     {
-        disir_error_set (instance, "entry_id is ill-formed");
-        return DISIR_STATUS_RESTRICTION_VIOLATED;
+        return status;
     }
 
     namespace_entry = 0;
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..dfe4c6b 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -113,6 +113,13 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     status = fslib_mold_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 6fee9eaccef22bb3d8a3d0e90fa2c3724f0ae33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 093/162] fix: the mold listing gives an entry twice when it
 has a mold, an override and a namespace

---
 lib/fslib/query.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 9c2fc7d..957aabd 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -263,7 +263,7 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                     // Strip away the override entry suffix
                     // Check if this exists - if it does, ignore this and move to the next
                     std::stringstream oestripped_stream;
-                    oestripped_stream << searchdir
+                    oestripped_stream << plugin->dp_mold_base_id << "/"
                                       << entry_name.substr(0, entry_name.size() - oid.size())
                                       << suffix;
                     std::string oestripped = oestripped_stream.str();
-- 
2.43.0


From 9e43f5bdef70e80fe2b950765172d710a44c3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 094/162] fix: the mold listing does not mark overridden
 entries

---
 lib/fslib/query.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 957aabd..eea9e5f 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -304,6 +304,16 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                 entry->flag.DE_READABLE = 1;
                 entry->flag.DE_WRITABLE = 1;
                 entry->flag.DE_NAMESPACE_ENTRY = namespace_entry;
+
+                // The entry is overridden if there is an override entry for it
+                std::string override_path = plugin->dp_mold_base_id + std::string("/")
+                                            + entry_name + oid + suffix;
+                if (namespace_entry == false
+                    && fslib_stat_filepath (instance, override_path.c_str(), &statbuf)
+                            == DISIR_STATUS_OK)
+                {
+                    entry->flag.DE_OVERRIDE = 1;
+                }
                 MQ_ENQUEUE (*entries, entry);
             }
         }
-- 
2.43.0


From 1ef18d4cb5cc208f61fee35519ab9ddc58eaed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 095/162] fix: the serializers report success when writing the
 output fails

---
 lib/fslib/json/json_serialize.cc | 20 ++++++++++++++++++--
 lib/fslib/toml/toml_serialize.cc |  5 +++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..b828480 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -20,8 +20,16 @@ dio_json_serialize_config (struct disir_instance *instance,
     {
         boost::fdostream file(fileno(output));
         dio::ConfigWriter writer (NULL);
+        enum disir_status status;
 
-         return writer.serialize (config, file);
+        status = writer.serialize (config, file);
+        if (status == DISIR_STATUS_OK && !file.good ())
+        {
+            disir_error_set (instance, "failed to write the serialized config");
+            return DISIR_STATUS_FS_ERROR;
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
@@ -40,8 +48,16 @@ dio_json_serialize_mold (struct disir_instance *instance,
     {
         boost::fdostream file(fileno(output));
         dio::MoldWriter writer (instance);
+        enum disir_status status;
+
+        status = writer.serialize (mold, file);
+        if (status == DISIR_STATUS_OK && !file.good ())
+        {
+            disir_error_set (instance, "failed to write the serialized mold");
+            return DISIR_STATUS_FS_ERROR;
+        }
 
-        return writer.serialize (mold, file);
+        return status;
     }
     catch (std::exception& e)
     {
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 60ac22f..3573816 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -313,6 +313,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     boost::fdostream file(fileno(output));
     root.write (&file);
+    if (!file.good ())
+    {
+        disir_error_set (instance, "failed to write the serialized config");
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
     return DISIR_STATUS_OK;
-- 
2.43.0


From 3590547cb189950d968fa92a9bc5badd83096c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 096/162] fix: failing to close the written file is not
 reported

---
 lib/fslib/write.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index dfe4c6b..fb8b4c0 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -98,7 +98,11 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "closing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
@@ -189,7 +193,11 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "closing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
-- 
2.43.0


From d6a452cacb34757778d99452944ca4f8ec692f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 097/162] fix: removing a config reports success when the file
 is not removed

---
 lib/fslib/write.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index fb8b4c0..30c91cb 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -235,7 +235,11 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (remove (filepath) != 0)
+        {
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+            status = DISIR_STATUS_FS_ERROR;
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From f9c9c0900731030aa456f00ba991891d32245b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 098/162] fix: reading a config leaks the mold when the file
 cannot be opened

---
 lib/fslib/read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..9c044db 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -61,6 +61,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From fc34b69fbcf1790a39f85eaaaadf6e2ab9ef719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 099/162] fix: a file that cannot be queried is reported as not
 existing

---
 lib/fslib/filepath.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/filepath.c b/lib/fslib/filepath.c
index ec94648..348b31e 100644
--- a/lib/fslib/filepath.c
+++ b/lib/fslib/filepath.c
@@ -71,7 +71,7 @@ fslib_stat_filepath (struct disir_instance *instance,
             status = DISIR_STATUS_PERMISSION_ERROR;
             disir_error_set (instance, "insufficient access to filepath '%s'", filepath);
         }
-        else
+        else if (errsave == ENOENT || errsave == ENAMETOOLONG)
         {
             // TODO: Use threadsafe strerror
             status = DISIR_STATUS_NOT_EXIST;
@@ -79,6 +79,12 @@ fslib_stat_filepath (struct disir_instance *instance,
                             filepath, strerror (errsave));
 
         }
+        else
+        {
+            status = DISIR_STATUS_FS_ERROR;
+            disir_error_set (instance, "unable to query filepath '%s': %s",
+                            filepath, strerror (errsave));
+        }
 
         return status;
     }
-- 
2.43.0


From 124771d521a55fae19be3ff7df0a6e1ddbeeb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 100/162] fix: a mold or override that cannot be queried is
 passed over for the namespace mold

---
 lib/fslib/query.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index eea9e5f..4d18b7e 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -543,6 +543,11 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
         // Check whether override entry exists, and hold onto the status
         override_status = fslib_stat_filepath (instance, override_filepath, statbuf);
+        if (override_status != DISIR_STATUS_OK && override_status != DISIR_STATUS_NOT_EXIST)
+        {
+            // Cannot tell whether the override entry exists - error already set
+            return override_status;
+        }
         if (override_status != DISIR_STATUS_OK)
         {
             // Clear the disir error if the override entry did not exist
@@ -560,8 +565,9 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     // The nominal file exists  this is what we return
     status = fslib_stat_filepath (instance, filepath, statbuf);
-    if (status == DISIR_STATUS_OK)
+    if (status != DISIR_STATUS_NOT_EXIST)
     {
+        // Either it exists, or we cannot tell (error already set)
         return status;
     }
 
-- 
2.43.0


From 5a7f823d00b46dea642538dc72780c744a10a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 101/162] fix: creating a directory may return an uninitialised
 status

---
 lib/fslib/mkdir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..9f396c5 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -35,6 +35,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     char _path[PATH_MAX];
     char *p;
 
+    status = DISIR_STATUS_OK;
     errno = 0;
 
     // Copy a mutable string
-- 
2.43.0


From ff728b3c019a218eed66fbe4342d96d7d348b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 102/162] fix: an error reading a TOML config passes for the
 end of the config

---
 3rdparty/boost_fdstream/fdstream.hpp | 8 ++++++--
 lib/fslib/toml/toml_unserialize.cc   | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/3rdparty/boost_fdstream/fdstream.hpp b/3rdparty/boost_fdstream/fdstream.hpp
index 585e03d..de03b48 100644
--- a/3rdparty/boost_fdstream/fdstream.hpp
+++ b/3rdparty/boost_fdstream/fdstream.hpp
@@ -154,8 +154,12 @@ class fdinbuf : public std::streambuf {
         // read at most bufSize new characters
         int num;
         num = read (fd, buffer+pbSize, bufSize);
-        if (num <= 0) {
-            // ERROR or EOF
+        if (num < 0) {
+            // ERROR - have the istream set badbit
+            throw std::ios_base::failure("read error");
+        }
+        if (num == 0) {
+            // EOF
             return EOF;
         }
 
diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 74fc34b..c286052 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -300,6 +300,11 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
 
     // Pare the TOML formatted file and extract it into a toml::Value object
     toml::ParseResult pr = dio_toml_parse (file);
+    if (file.bad ())
+    {
+        disir_error_set (instance, "failed to read the config");
+        return DISIR_STATUS_FS_ERROR;
+    }
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-- 
2.43.0


From 25da9256e76df572e324208839a8cbf1a04f264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 103/162] fix: archive entries are not strictly ordered

---
 lib/include/archive_private.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/archive_private.h b/lib/include/archive_private.h
index 70c21b2..804e287 100644
--- a/lib/include/archive_private.h
+++ b/lib/include/archive_private.h
@@ -4,6 +4,7 @@
 #include "tinytoml/toml.h"
 #include <disir/archive.h>
 #include <set>
+#include <tuple>
 #include <libgen.h>
 
 //! Convenience macros:
@@ -36,8 +37,8 @@ struct cmp_entry
 {
     bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b)
     {
-        return a.de_backend_id < b.de_backend_id || a.de_group_id < b.de_group_id ||
-               a.de_entry_id < b.de_entry_id;
+        return std::tie (a.de_backend_id, a.de_group_id, a.de_entry_id)
+               < std::tie (b.de_backend_id, b.de_group_id, b.de_entry_id);
     }
 };
 
-- 
2.43.0


From 0a96ab83019c28abfcd9f783d08c1f53aa053aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 104/162] fix: an archive with a dot in a group id cannot be
 read back

---
 lib/disir_archive_util.cc | 2 +-
 lib/disir_export.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c0dfdea..824f132 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -427,7 +427,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     for (const auto& group : groups.as<toml::Array>())
     {
         // Find group table in entries.toml
-        entries_group_table = entries_root.find (group.as<std::string>());
+        entries_group_table = entries_root.findChild (group.as<std::string>());
 
         if (entries_group_table == nullptr)
         {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8193bf1..78aa93f 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -106,7 +106,7 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
 
     plugin_entries = (*archive->da_entries)[plugin_name];
 
-    group_entries = plugin_entries->find (group_id);
+    group_entries = plugin_entries->findChild (group_id);
     if (group_entries == NULL)
     {
         group_entries = plugin_entries->setChild (group_id, toml::Table());
-- 
2.43.0


From 7cbd5755e919e7bf8a2af134c4dbabb78cfd10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 105/162] fix: exporting several entries leaves a file open for
 each of them

---
 lib/disir_export.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 78aa93f..9d2db9a 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -300,6 +300,15 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        ret = fclose (entry_file);
+        entry_file = NULL;
+        if (ret != 0)
+        {
+            log_error ("unable to write temp config file: %s", filepath);
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
         status = serialize_entry_index (archive, config, group_id,
                                         current->de_entry_name, plugin->dp_name);
         if (status != DISIR_STATUS_OK)
-- 
2.43.0


From a4772386fda73d29c540cfda774ec92711ed189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 106/162] fix: a failing export of an entry leaks its config

---
 lib/disir_export.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 9d2db9a..7be573d 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -347,6 +347,9 @@ out:
     if (entry_file)
         fclose (entry_file);
 
+    if (config)
+        disir_config_finished (&config);
+
     if (filepath[0] != '\0')
     {
         // Ignore failure condition
-- 
2.43.0


From 5ec4afd595b47d75eabccbe3db89dfac6fea847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 107/162] fix: finalizing an empty or unfinished archive leaks
 the archive writer

---
 lib/disir_archive.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e6b3811..c4bb434 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -400,6 +400,8 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
             status = DISIR_STATUS_FS_ERROR;
         }
 
+        ar->da_archive = NULL;
+
         if (status != DISIR_STATUS_OK)
         {
             goto out;
@@ -417,6 +419,12 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     }
     // FALL-THROUGH
 out:
+    // The archive was not closed if we failed to finish it
+    if (ar->da_archive)
+    {
+        (void) archive_write_free (ar->da_archive);
+        ar->da_archive = NULL;
+    }
 
     // Remove temp archive.
     if (ar->da_temp_archive_path &&
-- 
2.43.0


From 0714586f63b866d2e26da67c0382db1cd37eba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 108/162] fix: archive errors are logged with arguments that do
 not match their format

---
 lib/disir_archive_util.cc | 15 +++++++++------
 lib/disir_export.cc       | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 824f132..e9b7c69 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -405,7 +405,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     auto iter = extract_content.find (backend + "/entries.toml");
     if (iter == extract_content.end())
     {
-        log_error ("cannot find entries.toml for backend '%s' in map", backend);
+        log_error ("cannot find entries.toml for backend '%s' in map", backend.c_str ());
         return DISIR_STATUS_NOT_EXIST;
     }
 
@@ -416,7 +416,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
     if (!pr.valid())
     {
-        log_error ("unable to parse entries.toml in backend '%s'", backend);
+        log_error ("unable to parse entries.toml in backend '%s'", backend.c_str ());
         return DISIR_STATUS_FS_ERROR;
     }
 
@@ -432,13 +432,14 @@ validate_archive_backend_entries (struct disir_archive *archive,
         if (entries_group_table == nullptr)
         {
             log_error ("unable to find the group '%s' in entries.toml, in backend '%s'",
-                        group.as<std::string>(), backend);
+                        group.as<std::string>().c_str (), backend.c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>(), backend);
+            log_error ("group '%s' in '%s' is not a toml table",
+                       group.as<std::string>().c_str (), backend.c_str ());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -572,7 +573,8 @@ dx_archive_validate (struct disir_archive *archive,
         auto groups = entry.find (ATTRIBUTE_KEY_GROUPS);
         if (groups == nullptr)
         {
-            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>());
+            log_error ("key 'groups' not present in backend '%s'",
+                       id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -584,7 +586,8 @@ dx_archive_validate (struct disir_archive *archive,
 
         if (groups->empty())
         {
-            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>());
+            log_error ("'groups' array in backend '%s' is empty",
+                       id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 7be573d..ef47b11 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -54,7 +54,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
         {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>());
+            log_error ("cannot find entries.toml for backend '%s' in map",
+                       id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -65,7 +66,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
 
         if (!pr.valid())
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>());
+            log_error ("unable to parse entries.toml in backend '%s'",
+                       id->as<std::string>().c_str ());
             return DISIR_STATUS_FS_ERROR;
         }
 
@@ -195,7 +197,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
     if (entry == NULL)
     {
         log_debug (3, "error creating new archive entry: %s",
-                       archive_errno (archive));
+                       archive_error_string (archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -219,7 +221,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-            log_error ("error writing to archive %s", archive_errno (archive));
+            log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
@@ -227,7 +229,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
-        log_error ("could not finish archive write entry %s", archive_errno (archive));
+        log_error ("could not finish archive write entry %s", archive_error_string (archive));
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -414,7 +416,7 @@ write_archive_metadata_toml (struct disir_archive *archive)
     if (entry == NULL)
     {
         log_debug (5, "error creating new archive entry: %s",
-                       archive_errno (archive->da_archive));
+                       archive_error_string (archive->da_archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -472,7 +474,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (entry == NULL)
         {
             log_error ("error creating new archive entry: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             return DISIR_STATUS_NO_MEMORY;
         }
 
@@ -486,7 +488,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (archive_write_data (archive->da_archive, str.c_str(), str.size()) < 0)
         {
             log_error ("error writing archive metadata.toml: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             status = DISIR_STATUS_FS_ERROR;
             goto error;
         }
-- 
2.43.0


From adf041ddf00cda29e5d0d5328cb606ca56b63ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 109/162] fix: listing entries passes over what it cannot read

---
 lib/fslib/query.cc | 88 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 4d18b7e..add087f 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -7,6 +7,7 @@
 // system
 #include <algorithm>
 #include <dirent.h>
+#include <errno.h>
 #include <sstream>
 
 #include <iostream>
@@ -45,6 +46,25 @@ fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id)
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//! An incomplete listing is not handed out
+static enum disir_status
+abandon_query_entries (DIR *directory, struct disir_entry **entries, enum disir_status status)
+{
+    struct disir_entry *next;
+
+    closedir (directory);
+
+    while (*entries != NULL)
+    {
+        next = (*entries)->next;
+        disir_entry_finished (entries);
+        *entries = next;
+    }
+
+    return status;
+}
+
 //! FSLIB API
 enum disir_status
 fslib_config_query_entries (struct disir_instance *instance, struct disir_register_plugin *plugin,
@@ -92,7 +112,7 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
         disir_error_set (instance, "Unable to open directory: %s", searchdir.c_str());
         return DISIR_STATUS_FS_ERROR;
     }
-    while ((dp = readdir(directory)) != NULL)
+    while (errno = 0, (dp = readdir(directory)) != NULL)
     {
         // entry file, relative to basedir
         std::stringstream ef;
@@ -113,11 +133,17 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
                 //! Check if we have a mold entry for this directory entry
                 std::string entry_name(name, 0, name.size() - suffix.size());
                 status = plugin->dp_mold_query (instance, plugin, entry_name.c_str(), &mold_entry);
-                if (status != DISIR_STATUS_EXISTS)
+                if (status == DISIR_STATUS_NOT_EXIST || status == DISIR_STATUS_RESTRICTION_VIOLATED)
                 {
-                    // We dont really care what happened here...
+                    // Not an entry that is covered by a mold
+                    disir_error_clear (instance);
                     continue;
                 }
+                if (status != DISIR_STATUS_EXISTS)
+                {
+                    // Cannot tell whether it is an entry
+                    return abandon_query_entries (directory, entries, status);
+                }
 
                 entry = (struct disir_entry *) calloc (1, sizeof (struct disir_entry));
                 entry->de_entry_name = strdup(entry_name.c_str());
@@ -134,10 +160,19 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
             else if (strcmp (dp->d_name, "..") == 0) {}
             else
             {
-                fslib_config_query_entries (instance, plugin, name.c_str(), entries);
+                status = fslib_config_query_entries (instance, plugin, name.c_str(), entries);
+                if (status != DISIR_STATUS_OK)
+                {
+                    return abandon_query_entries (directory, entries, status);
+                }
             }
         }
     }
+    if (errno != 0)
+    {
+        disir_error_set (instance, "Unable to read directory: %s", searchdir.c_str());
+        return abandon_query_entries (directory, entries, DISIR_STATUS_FS_ERROR);
+    }
 
     closedir (directory);
 
@@ -208,12 +243,17 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
     std::stringstream nspath_stream;
     nspath_stream << searchdir << "/__namespace" << suffix;
     std::string nspath = nspath_stream.str();
-    if (fslib_stat_filepath (instance, nspath.c_str(), &statbuf) == DISIR_STATUS_OK)
+    status = fslib_stat_filepath (instance, nspath.c_str(), &statbuf);
+    if (status == DISIR_STATUS_OK)
     {
         has_namespace = true;
     }
+    else if (status != DISIR_STATUS_NOT_EXIST)
+    {
+        return abandon_query_entries (directory, entries, status);
+    }
 
-    while ((dp = readdir(directory)) != NULL)
+    while (errno = 0, (dp = readdir(directory)) != NULL)
     {
         // entry file, relative to basedir
         std::stringstream ef;
@@ -267,11 +307,15 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                                       << entry_name.substr(0, entry_name.size() - oid.size())
                                       << suffix;
                     std::string oestripped = oestripped_stream.str();
-                    if (fslib_stat_filepath (instance, oestripped.c_str(), &statbuf)
-                            == DISIR_STATUS_OK)
+                    status = fslib_stat_filepath (instance, oestripped.c_str(), &statbuf);
+                    if (status == DISIR_STATUS_OK)
                     {
                         continue;
                     }
+                    if (status != DISIR_STATUS_NOT_EXIST)
+                    {
+                        return abandon_query_entries (directory, entries, status);
+                    }
 
                     // if has_namespace is false, we move to the next,
                     // since we have neither a namespace nor an original entry name.
@@ -308,13 +352,19 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                 // The entry is overridden if there is an override entry for it
                 std::string override_path = plugin->dp_mold_base_id + std::string("/")
                                             + entry_name + oid + suffix;
-                if (namespace_entry == false
-                    && fslib_stat_filepath (instance, override_path.c_str(), &statbuf)
-                            == DISIR_STATUS_OK)
+                MQ_ENQUEUE (*entries, entry);
+                if (namespace_entry == false)
                 {
-                    entry->flag.DE_OVERRIDE = 1;
+                    status = fslib_stat_filepath (instance, override_path.c_str(), &statbuf);
+                    if (status == DISIR_STATUS_OK)
+                    {
+                        entry->flag.DE_OVERRIDE = 1;
+                    }
+                    else if (status != DISIR_STATUS_NOT_EXIST)
+                    {
+                        return abandon_query_entries (directory, entries, status);
+                    }
                 }
-                MQ_ENQUEUE (*entries, entry);
             }
         }
         else if (dp->d_type == DT_DIR)
@@ -324,11 +374,19 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
             else if (strcmp (dp->d_name, "..") == 0) {}
             else
             {
-
-                fslib_mold_query_entries (instance, plugin, name.c_str(), entries);
+                status = fslib_mold_query_entries (instance, plugin, name.c_str(), entries);
+                if (status != DISIR_STATUS_OK)
+                {
+                    return abandon_query_entries (directory, entries, status);
+                }
             }
         }
     }
+    if (errno != 0)
+    {
+        disir_error_set (instance, "Unable to read directory: %s", searchdir.c_str());
+        return abandon_query_entries (directory, entries, DISIR_STATUS_FS_ERROR);
+    }
 
     closedir (directory);
 
-- 
2.43.0


From 29f6757b5ea50cb411846645b6225380e6c50cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 110/162] fix: an entry that could not be appended is listed in
 the archive

---
 lib/disir_export.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index ef47b11..59f517e 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -311,11 +311,6 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
             goto out;
         }
 
-        status = serialize_entry_index (archive, config, group_id,
-                                        current->de_entry_name, plugin->dp_name);
-        if (status != DISIR_STATUS_OK)
-            goto out;
-
         snprintf (archive_entry_name, PATH_MAX, "%s/%s/%s",
                   plugin->dp_name, group_id, current->de_entry_name);
 
@@ -323,6 +318,11 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        status = serialize_entry_index (archive, config, group_id,
+                                        current->de_entry_name, plugin->dp_name);
+        if (status != DISIR_STATUS_OK)
+            goto out;
+
         archive_entry.de_backend_id = plugin->dp_name;
         archive_entry.de_group_id = group_id;
         archive_entry.de_entry_id = current->de_entry_name;
-- 
2.43.0


From 6897eb726e69cb19c23dccc6bf2e3358d74af118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 111/162] fix: failing to read an entry or to write its header
 passes for success

---
 lib/disir_export.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 59f517e..d9b6324 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -157,7 +157,7 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     archive_entry_set_filetype (entry, AE_IFREG);
     archive_entry_set_perm (entry, 0644);
 
-    ret = archive_write_header (archive, entry) != ARCHIVE_OK;
+    ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
         if (ret == ARCHIVE_FATAL)
@@ -216,6 +216,12 @@ append_config (struct disir_instance *instance, struct archive *archive,
     do
     {
         read = fread (buf, 1, sizeof (buf), infile);
+        if (ferror (infile))
+        {
+            log_error ("unable to read %s", filepath);
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
         if (read == 0)
             break;
 
-- 
2.43.0


From 38c47a2b9142873da6725cfa5572cc1ca60f60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 112/162] fix: an archive whose temporary folder cannot be
 removed is leaked

---
 lib/disir_archive_util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index e9b7c69..d7f53ae 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -636,9 +636,12 @@ remove_folder_and_content (const char *fpath, const struct stat *sb,
 enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
+    enum disir_status status;
     struct stat st;
     int ret;
 
+    status = DISIR_STATUS_OK;
+
     // Remove temp files
     if (ar && ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
     {
@@ -648,7 +651,7 @@ dx_archive_destroy (struct disir_archive *ar)
         if (ret != 0)
         {
             // Already logged
-            return DISIR_STATUS_FS_ERROR;
+            status = DISIR_STATUS_FS_ERROR;
         }
     }
 
@@ -674,7 +677,7 @@ dx_archive_destroy (struct disir_archive *ar)
     if (ar)
         free (ar);
 
-    return DISIR_STATUS_OK;
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From 9c7cdeeca31b9048f1f86d5674204dffe5e23595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 113/162] fix: an unreadable archive index passes for an empty
 one

---
 lib/disir_archive_util.cc | 4 ++--
 lib/disir_export.cc       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index d7f53ae..132737e 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -414,7 +414,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     std::ifstream entries_toml (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (entries_toml);
 
-    if (!pr.valid())
+    if (!entries_toml.is_open() || entries_toml.bad() || !pr.valid())
     {
         log_error ("unable to parse entries.toml in backend '%s'", backend.c_str ());
         return DISIR_STATUS_FS_ERROR;
@@ -493,7 +493,7 @@ dx_archive_validate (struct disir_archive *archive,
     std::ifstream metadata (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (metadata);
 
-    if (!pr.valid())
+    if (!metadata.is_open() || metadata.bad() || !pr.valid())
     {
         log_error ("unable to parse metadata.toml");
         return DISIR_STATUS_FS_ERROR;
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index d9b6324..c9ee0c4 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -37,7 +37,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
     std::ifstream metadata (toml_filepath.c_str());
     toml::ParseResult pr = toml::parse (metadata);
 
-    if (!pr.valid())
+    if (!metadata.is_open() || metadata.bad() || !pr.valid())
     {
         log_error ("unable to parse metadata.toml in disir archive");
         return DISIR_STATUS_FS_ERROR;
@@ -64,7 +64,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         std::ifstream entries_toml (entries_toml_filepath.c_str());
         toml::ParseResult pr = toml::parse (entries_toml);
 
-        if (!pr.valid())
+        if (!entries_toml.is_open() || entries_toml.bad() || !pr.valid())
         {
             log_error ("unable to parse entries.toml in backend '%s'",
                        id->as<std::string>().c_str ());
-- 
2.43.0


From 674986f2800e7995f5f9d23dbd2d87f9b0271bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 114/162] fix: finalizing an archive destroys the existing one
 when it cannot be written

---
 lib/disir_archive_util.cc | 68 +++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 132737e..7628515 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -747,6 +747,37 @@ copy_file (const char *from, const char *to)
     }
 
     destination << source.rdbuf();
+    destination.close();
+    if (source.bad() || destination.fail())
+    {
+        (void) remove (to);
+        return DISIR_STATUS_FS_ERROR;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
+//! STATIC FUNCTION
+//! Put the file in place of whatever exists at the destination only when it is completely copied.
+static enum disir_status
+replace_file (const char *from, const char *to)
+{
+    enum disir_status status;
+    std::string incomplete (to);
+
+    incomplete += ".incomplete";
+
+    status = copy_file (from, incomplete.c_str());
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
+
+    if (rename (incomplete.c_str(), to) != 0)
+    {
+        (void) remove (incomplete.c_str());
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     return DISIR_STATUS_OK;
 }
@@ -758,12 +789,10 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
 {
     enum disir_status status;
     int ret;
-    char backup_path[PATH_MAX];
     char archive_path_with_extension[4096];
     const char *ext = NULL;
 
     strcpy (archive_path_with_extension, new_archive_path);
-    backup_path[0] = '\0';
 
     // Append extension if it doesn't already exists
     ext = strrchr (new_archive_path, '.');
@@ -775,7 +804,7 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
     // CASE 1: Finalizing a new archive to given location
     if (existing_archive_path == NULL)
     {
-        status = copy_file (temp_archive_path, archive_path_with_extension);
+        status = replace_file (temp_archive_path, archive_path_with_extension);
         if (status != DISIR_STATUS_OK)
         {
             log_error ("failed to move archive to '%s': %s", archive_path_with_extension,
@@ -787,7 +816,7 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
     // CASE 2: If working on existing archive and want to export result to a new location
     if (existing_archive_path && strcmp (existing_archive_path, archive_path_with_extension) != 0)
     {
-        status = copy_file (temp_archive_path, archive_path_with_extension);
+        status = replace_file (temp_archive_path, archive_path_with_extension);
         if (status != DISIR_STATUS_OK)
         {
             log_error ("failed to move archive to '%s': %s", archive_path_with_extension,
@@ -808,36 +837,11 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
     if (existing_archive_path &&
         (strcmp (existing_archive_path, archive_path_with_extension) == 0))
     {
-        // Rename existing archive with backup extension.
-        strncat (backup_path, existing_archive_path, PATH_MAX-1);
-        strncat (backup_path, ".backup", PATH_MAX-1);
-        ret = rename (existing_archive_path, backup_path);
-        if (ret != 0)
-        {
-            log_error ("failed to create backup of existing archive: %s", strerror (errno));
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        // Rename new archive to same as existing
-        status = copy_file (temp_archive_path, existing_archive_path);
+        status = replace_file (temp_archive_path, existing_archive_path);
         if (status != DISIR_STATUS_OK)
         {
-            log_error ("failed to rename archive '%s': %s", temp_archive_path, strerror (errno));
-
-            // Error again?! Re-rename existing file back to original name
-            ret = rename (backup_path, existing_archive_path);
-            if (ret != 0)
-            {
-                log_error ("failed to rename archive back to existing name: %s", strerror (errno));
-            }
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        // All good, remove old archive
-        ret = remove (backup_path);
-        if (ret != 0)
-        {
-            log_error ("failed to remove original archive: %s", strerror (errno));
+            log_error ("failed to replace archive '%s': %s", existing_archive_path,
+                                                             strerror (errno));
             return DISIR_STATUS_FS_ERROR;
         }
     }
-- 
2.43.0


From 5bdf98e402c83e64b5fbaaa444489d968db2c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 115/162] fix: a discarded import leaves a dangling pointer
 behind

---
 lib/disir_import.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..88d36e0 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -535,7 +535,9 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
     {
     case DISIR_IMPORT_DISCARD:
     {
-        return dx_import_destroy (*import);
+        status = dx_import_destroy (*import);
+        *import = NULL;
+        return status;
     }
     case DISIR_IMPORT_DO:
     {
-- 
2.43.0


From e9429016f7a1fb7eebe6b84898eef6516f0537fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 116/162] fix: destroying an import without entries reads
 outside the entries

---
 lib/disir_import.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 88d36e0..257f95d 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -658,16 +658,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From 2e077cacd30d0afdac5126ee0f57e65bedce8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 117/162] fix: long import information overflows its buffer

---
 lib/disir_import.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 257f95d..796c8a1 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -36,10 +36,8 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
-    entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
-    buf[msgsize] = '\0';
-
-    strcpy (entry->ie_info, buf);
+    // A message that does not fit is truncated.
+    entry->ie_info = msgsize < 0 ? NULL : strdup (buf);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From 72ae35eedd79a0ce657195fa98ce70f208a1086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 118/162] fix: importing over an entry newer than its mold
 passes for no conflict

---
 lib/disir_import.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 796c8a1..6278656 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -133,7 +133,16 @@ import_determine_conflict (struct disir_instance *instance,
     }
     else if (status != DISIR_STATUS_OK)
     {
-        status = status == DISIR_STATUS_INVALID_CONTEXT ? DISIR_STATUS_CONFIG_INVALID : status;
+        if (status == DISIR_STATUS_CONFLICTING_SEMVER)
+        {
+            // The existing entry is of a higher version than its mold. It can only be replaced.
+            import_info_set (current, "version of existing entry is higher than system version");
+            current->ie_conflict = 1;
+        }
+        else if (status == DISIR_STATUS_INVALID_CONTEXT)
+        {
+            status = DISIR_STATUS_CONFIG_INVALID;
+        }
         goto out;
     }
 
-- 
2.43.0


From febe7130a30bddded343a54fcf77167390d6bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 119/162] fix: one unreadable entry on the system makes the
 whole archive impossible to import

---
 lib/disir_import.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 6278656..565342d 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -139,8 +139,9 @@ import_determine_conflict (struct disir_instance *instance,
             import_info_set (current, "version of existing entry is higher than system version");
             current->ie_conflict = 1;
         }
-        else if (status == DISIR_STATUS_INVALID_CONTEXT)
+        else if (status == DISIR_STATUS_INVALID_CONTEXT || status == DISIR_STATUS_FS_ERROR)
         {
+            // Neither an invalid nor an unreadable existing entry can be judged.
             status = DISIR_STATUS_CONFIG_INVALID;
         }
         goto out;
-- 
2.43.0


From 550d8c83338810bca8aacaced24b574205f78dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 120/162] fix: an entry whose import state cannot be resolved
 is leaked

---
 lib/disir_archive.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index c4bb434..c4d7b4b 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -96,6 +96,7 @@ archive_import_config_entries (struct disir_instance *instance,
             status != DISIR_STATUS_CONFIG_INVALID &&
             status != DISIR_STATUS_CONFLICTING_SEMVER)
         {
+            dx_import_entry_destroy (entry);
             goto error;
         }
 
-- 
2.43.0


From f0de47f90091e8e7472d7c308b92c0faa4ed4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 121/162] fix: an abandoned update has changed values of the
 config it was to update

---
 lib/update.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 0172b1f..1cf8938 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -285,8 +285,7 @@ disir_update_continue (struct disir_update *update)
             if (res == 0)
             {
                 // Config has not changed since its last update value.
-                // We can safely update the stored value in config with new default
-                dx_value_copy (&keyval->kv_value, &target_def->de_value);
+                // The updated config already holds the new default.
                 // TODO: Add update report entry
                 update->up_updated++;
                 continue;
-- 
2.43.0


From d8a9f4878cb620ff41fd988482bbfa2bc76ee53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 122/162] fix: importing with update rounds the floats it keeps

---
 lib/update.c | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 1cf8938..e958717 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -347,6 +347,25 @@ disir_update_conflict (struct disir_update *update, const char **name,
     return DISIR_STATUS_OK;
 }
 
+//! STATIC FUNCTION
+//! Leave the conflict state - the conflict is resolved.
+static void
+conflict_resolved (struct disir_update *update)
+{
+    dc_putcontext (&update->up_context_keyval);
+
+    // TODO: Add update report entry
+    update->up_updated++;
+
+    // Remove conflict state
+    update->up_keyval = NULL;
+    update->up_context_keyval = NULL;
+    free (update->up_config_value);
+    update->up_config_value = NULL;
+    free (update->up_mold_value);
+    update->up_mold_value = NULL;
+}
+
 enum disir_status
 disir_update_resolve (struct disir_update *update, const char *resolve)
 {
@@ -379,18 +398,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
     if (status != DISIR_STATUS_OK)
         goto out;
 
-    dc_putcontext (&update->up_context_keyval);
-
-    // TODO: Add update report entry
-    update->up_updated++;
-
-    // Remove conflict state
-    update->up_keyval = NULL;
-    update->up_context_keyval = NULL;
-    free (update->up_config_value);
-    update->up_config_value = NULL;
-    free (update->up_mold_value);
-    update->up_mold_value = NULL;
+    conflict_resolved (update);
 
     TRACE_EXIT ("");
     // FALL-THROUGH
@@ -449,9 +457,6 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     enum disir_status status;
     struct disir_update *update = NULL;
     struct disir_config *c;
-    const char *name;
-    const char *keyval;
-    const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_CONFLICT)
@@ -459,20 +464,22 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
 
     while (status == DISIR_STATUS_CONFLICT)
     {
-        status = disir_update_conflict (update, &name, &keyval, &mold);
-        if (status != DISIR_STATUS_OK)
-            goto error;
-
-        status = disir_update_resolve (update, keyval);
+        // Keep the value of the config. It is not resolved through its printable form,
+        // which does not hold every value in full.
+        status = set_target_value (update->up_config_target, update->up_path,
+                                   &update->up_keyval->kv_value);
         if (status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
         {
-            status = disir_update_resolve (update, mold);
+            // The target already holds the default of the mold.
+            status = DISIR_STATUS_OK;
         }
         if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
 
+        conflict_resolved (update);
+
         status = disir_update_continue (update);
     }
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 5478f75a43f8f92f966ed49be3adaa2b8b925305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 123/162] fix: a failed instance creation leaks its plugins,
 configuration and error

---
 lib/disir.c | 96 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index a327a59..c45c357 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -20,6 +20,51 @@
 #include "mqueue.h"
 #include "restriction.h"
 
+//! INTERNAL STATIC
+//! Finish, unload and free every plugin registered with the instance.
+static void
+unload_plugins (struct disir_instance *instance)
+{
+    struct disir_register_plugin_internal *plugin;
+
+    while (1)
+    {
+        plugin = MQ_POP (instance->dio_plugin_queue);
+        if (plugin == NULL)
+            break;
+
+        // Call cleanup method specified by plugin.
+        if (plugin->pi_plugin.dp_plugin_finished)
+        {
+            plugin->pi_plugin.dp_plugin_finished (instance, &plugin->pi_plugin);
+        }
+
+        if (plugin->pi_dl_handler)
+            dlclose (plugin->pi_dl_handler);
+
+        if (plugin->pi_filepath)
+            free (plugin->pi_filepath);
+        if (plugin->pi_io_id)
+            free (plugin->pi_io_id);
+        if (plugin->pi_group_id)
+            free (plugin->pi_group_id);
+        if (plugin->pi_plugin.dp_name)
+            free (plugin->pi_plugin.dp_name);
+        if (plugin->pi_plugin.dp_config_entry_type)
+            free (plugin->pi_plugin.dp_config_entry_type);
+        if (plugin->pi_plugin.dp_config_base_id)
+            free (plugin->pi_plugin.dp_config_base_id);
+        if (plugin->pi_plugin.dp_mold_base_id)
+            free (plugin->pi_plugin.dp_mold_base_id);
+        if (plugin->pi_plugin.dp_mold_entry_type)
+            free (plugin->pi_plugin.dp_mold_entry_type);
+        if (plugin->pi_plugin.dp_description)
+            free (plugin->pi_plugin.dp_description);
+
+        free (plugin);
+    }
+}
+
 //! INTERNAL STATIC
 static enum disir_status
 load_plugin (struct disir_instance *instance, const char *plugin_filepath, const char *io_id,
@@ -217,6 +262,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 
     status = DISIR_STATUS_OK;
     libmold = NULL;
+    libconf = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
                  config_filepath, config, instance);
@@ -303,8 +349,19 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
+        // Plugins may already have been loaded
+        unload_plugins (dis);
+        if (dis->disir_error_message)
+        {
+            free (dis->disir_error_message);
+        }
         free (dis);
     }
+    if (libconf && libconf != config && status != DISIR_STATUS_OK)
+    {
+        // A config that is provided by the user stays with the user on failure.
+        disir_config_finished (&libconf);
+    }
     if (libmold)
     {
         disir_mold_finished (&libmold);
@@ -318,48 +375,11 @@ error:
 enum disir_status
 disir_instance_destroy (struct disir_instance **instance)
 {
-    struct disir_register_plugin_internal *plugin;
-
     if (instance == NULL || *instance == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
     // Free loaded plugins
-    while (1)
-    {
-        plugin = MQ_POP ((*instance)->dio_plugin_queue);
-        if (plugin == NULL)
-            break;
-
-        // Call cleanup method specified by plugin.
-        if (plugin->pi_plugin.dp_plugin_finished)
-        {
-            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
-        }
-
-        if (plugin->pi_dl_handler)
-            dlclose (plugin->pi_dl_handler);
-
-        if (plugin->pi_filepath)
-            free (plugin->pi_filepath);
-        if (plugin->pi_io_id)
-            free (plugin->pi_io_id);
-        if (plugin->pi_group_id)
-            free (plugin->pi_group_id);
-        if (plugin->pi_plugin.dp_name)
-            free (plugin->pi_plugin.dp_name);
-        if (plugin->pi_plugin.dp_config_entry_type)
-            free (plugin->pi_plugin.dp_config_entry_type);
-        if (plugin->pi_plugin.dp_config_base_id)
-            free (plugin->pi_plugin.dp_config_base_id);
-        if (plugin->pi_plugin.dp_mold_base_id)
-            free (plugin->pi_plugin.dp_mold_base_id);
-        if (plugin->pi_plugin.dp_mold_entry_type)
-            free (plugin->pi_plugin.dp_mold_entry_type);
-        if (plugin->pi_plugin.dp_description)
-            free (plugin->pi_plugin.dp_description);
-
-        free (plugin);
-    }
+    unload_plugins (*instance);
 
     disir_config_finished(&(*instance)->libdisir_config);
 
-- 
2.43.0


From 549ce260a23a11cc07901526f1cf032da8097b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 124/162] fix: every default instance leaks its configuration

---
 lib/disir.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index c45c357..a09f8c3 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -308,11 +308,16 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
 
         // Remove the plugin element from default generated config
-        struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
-            dc_destroy (&plugin);
+            struct disir_context *plugin;
+            struct disir_context *context_config = dc_config_getcontext (libconf);
+            status = dc_find_element (context_config, "plugin", 0, &plugin);
+            if (status == DISIR_STATUS_OK)
+            {
+                dc_destroy (&plugin);
+            }
+            dc_putcontext (&context_config);
         }
     }
     // We do not need the libmold definition anymore
-- 
2.43.0


From 0f0a07920e5f1b081380c8180974a22d86a9ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 125/162] fix: an instance is created from an invalid
 configuration object

---
 lib/disir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index a09f8c3..c51b5b3 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -8,6 +8,7 @@
 #include <disir/disir.h>
 #include <disir/util.h>
 #include <disir/context.h>
+#include <disir/config.h>
 
 // private
 #include "context_private.h"
@@ -296,6 +297,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         // XXX: Incref config and mold? As of now, we STEAL the user provided references,
         // which probably is a bad design...
         libconf = config;
+        status = disir_config_valid (libconf, NULL);
     }
     else if (config_filepath)
     {
@@ -334,7 +336,6 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         goto error;
     }
 
-    // TODO: Validate libconf
     // XXX: Validate version? Upgrade?
 
     status = load_plugins_from_config (dis, libconf);
-- 
2.43.0


From 83fc875d0d5a66a77f22fa2e1543b843a60f7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 126/162] fix: long plugin directories are cut off

---
 lib/disir.c        | 6 +++---
 lib/disir_plugin.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index c51b5b3..9b5e688 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -102,9 +102,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     }
 
     if (config_base_id)
-        plugin.dp_config_base_id = strndup (config_base_id, 512);
+        plugin.dp_config_base_id = strdup (config_base_id);
     if (mold_base_id)
-        plugin.dp_mold_base_id = strndup (mold_base_id, 512);
+        plugin.dp_mold_base_id = strdup (mold_base_id);
 
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
@@ -134,7 +134,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
     internal->pi_dl_handler = handle;
-    internal->pi_filepath = strndup (plugin_filepath, 512);
+    internal->pi_filepath = strdup (plugin_filepath);
 
     free (plugin.dp_config_base_id);
     free (plugin.dp_mold_base_id);
diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index e05ff45..cad9270 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -8,7 +8,7 @@
 #include "mqueue.h"
 
 #define PLUGIN_STRING_MEMBER_COPY(name) { do {              \
-    internal->pi_plugin.name = strndup (plugin->name, 512); \
+    internal->pi_plugin.name = strdup (plugin->name);       \
     if (internal->pi_plugin.name == NULL)                   \
     {                                                       \
         status = DISIR_STATUS_NO_MEMORY;                    \
-- 
2.43.0


From 6a7027927ca436b4cfd704c3369e708db6e2c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 127/162] fix: registering a plugin without name, description
 or entry types crashes

---
 lib/disir_plugin.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index cad9270..ab9ae09 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -33,6 +33,13 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    if (plugin->dp_name == NULL || plugin->dp_description == NULL
+        || plugin->dp_config_entry_type == NULL || plugin->dp_mold_entry_type == NULL)
+    {
+        log_debug (0, "invoked with a plugin without name, description or entry types.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // TODO: Check version compatibility
 
     internal = calloc (1, sizeof (struct disir_register_plugin_internal));
-- 
2.43.0


From b4d5c2ba81fed4f0a592f72fd7450a6717ef30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 128/162] fix: the toml plugin has no molds, so every operation
 on its configs crashes

---
 plugins/toml/main.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/plugins/toml/main.cc b/plugins/toml/main.cc
index 4a99570..e301f46 100644
--- a/plugins/toml/main.cc
+++ b/plugins/toml/main.cc
@@ -1,5 +1,6 @@
 #include <disir/plugin.h>
 #include <disir/fslib/toml.h>
+#include <disir/fslib/json.h>
 
 #define RM_CONST(t, exp) (t*)((char*)NULL + ((const char*)(exp) - (char*)NULL))
 
@@ -20,16 +21,18 @@ dio_register_plugin (struct disir_instance *instance, struct disir_register_plug
     plugin->dp_config_entry_type = RM_CONST (char, "toml");
     plugin->dp_config_read = dio_toml_config_read;
     plugin->dp_config_write = dio_toml_config_write;
-    plugin->dp_config_remove = NULL;
+    plugin->dp_config_remove = dio_json_config_remove;
+    plugin->dp_config_fd_write = dio_toml_serialize_config;
+    plugin->dp_config_fd_read = dio_toml_unserialize_config;
     plugin->dp_config_entries = dio_toml_config_entries;
     plugin->dp_config_query = dio_toml_config_query;
 
-    // TODO: Use JSON based mold output.
+    // Molds are stored as JSON.
     plugin->dp_mold_entry_type = RM_CONST (char, "json");
-    plugin->dp_mold_read = NULL;
-    plugin->dp_mold_write = NULL;
-    plugin->dp_mold_entries = NULL;
-    plugin->dp_mold_query = NULL;
+    plugin->dp_mold_read = dio_json_mold_read;
+    plugin->dp_mold_write = dio_json_mold_write;
+    plugin->dp_mold_entries = dio_json_mold_entries;
+    plugin->dp_mold_query = dio_json_mold_query;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 7bb04160ce9fc79bc4e46855a69efe70211083d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 129/162] fix: filesystem plugins without molds crash

---
 lib/fslib/query.cc | 12 ++++++++++++
 lib/fslib/read.c   |  6 ++++++
 lib/fslib/write.c  | 12 ++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index add087f..0792003 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -82,6 +82,12 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
     suffix_stream << "." << plugin->dp_config_entry_type;
     std::string suffix = suffix_stream.str();
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not support reading molds");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     // Directory is a combinarion of plugin config_base_id and input basedir
     std::stringstream sd;
     sd << plugin->dp_config_base_id;
@@ -402,6 +408,12 @@ fslib_plugin_config_query (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct disir_entry *ret = NULL;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not support reading molds");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, &ret);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index 9c044db..6730aef 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -36,6 +36,12 @@ fslib_plugin_config_read (struct disir_instance *instance,
     // Locate mold from plugin
     if (mold == NULL)
     {
+        if (plugin->dp_mold_read == NULL)
+        {
+            disir_error_set (instance, "plugin does not support reading molds");
+            return DISIR_STATUS_NO_CAN_DO;
+        }
+
         status = plugin->dp_mold_read (instance, plugin, entry_id, &resolved_mold);
         if (status != DISIR_STATUS_OK)
         {
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 30c91cb..c60549a 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -16,6 +16,12 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not support reading molds");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
@@ -212,6 +218,12 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not support reading molds");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From 632bc93bd04e693433095f9ae114f530431c47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 130/162] fix: destroying a documentation after its parent
 crashes

---
 lib/context_documentation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 9c4c909..29f7110 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -394,7 +394,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     dx_value_clear (&tmp->dd_value);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // A destroyed parent has no documentation left
+    if (context && context->cx_parent_context
+        && context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
-- 
2.43.0


From 55861e4caa20635cd914d17f84e708b1248b2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 131/162] fix: a context whose parent is destroyed crashes when
 it is used

---
 lib/context_util.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index 6f591eb..0d43352 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -287,6 +287,8 @@ dx_context_transfer_logwarn (struct disir_context *destination, struct disir_con
 enum disir_status
 dx_context_sp_full_check_log_error (struct disir_context *context, const char *function_name)
 {
+    struct disir_context *ancestor;
+
     // Check argument
     if (context == NULL)
     {
@@ -303,10 +305,25 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
 
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
-        dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
+        dx_log_context (context, "%s() invoked on unknown context( %d )",
+                        function_name, context->cx_type);
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
+    // A context outlives its ancestors only if it is not part of them yet.
+    // It can no longer become so when any of them is destroyed.
+    for (ancestor = context;
+         ancestor->cx_parent_context && ancestor->cx_parent_context != ancestor;
+         ancestor = ancestor->cx_parent_context)
+    {
+        if (ancestor->cx_parent_context->CONTEXT_STATE_DESTROYED)
+        {
+            log_debug (0, "%s() invoked on context %s whose parent is destroyed",
+                       function_name, dc_context_type_string (context));
+            return DISIR_STATUS_DESTROYED_CONTEXT;
+        }
+    }
+
     return DISIR_STATUS_OK;
 }
 
-- 
2.43.0


From d2e665d6b2a4fb3fd43c707df1e69ceafdea3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 132/162] fix: comparing a destroyed context crashes

---
 lib/compare.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index f43078b..4a3c158 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -825,10 +825,17 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
     enum disir_status status;
     struct disir_diff_report *internal_report;
 
-    if (lhs == NULL || rhs == NULL)
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (lhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (rhs);
+    if (status != DISIR_STATUS_OK)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
-        return DISIR_STATUS_INVALID_ARGUMENT;
+        // Already logged
+        return status;
     }
 
     internal_report = dx_diff_report_create ();
-- 
2.43.0


From ebbbd17fc2506d62303d3882a0ba4bff62b8007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 133/162] fix: generating from a mold with a keyval without
 default crashes

---
 lib/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index 7feb575..4e89318 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -95,6 +95,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    log_debug (2, "keyval %s has no default to generate", name);
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 924bb743c4094f7ebc7f4a9e751cb5386eda443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 134/162] fix: an update reads a keyval that is destroyed
 during a conflict

---
 lib/include/update_private.h | 3 +++
 lib/update.c                 | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/update_private.h b/lib/include/update_private.h
index daa0ab6..2bb49b6 100644
--- a/lib/include/update_private.h
+++ b/lib/include/update_private.h
@@ -22,6 +22,9 @@ struct disir_update
     struct disir_context        *up_context_keyval;
     //! Path from the root of the config to the conflicting keyval.
     char                        *up_path;
+
+    //! Name of the keyval in conflict. Our own copy, since the keyval may be destroyed meanwhile.
+    char                        *up_name;
     char                        *up_config_value;
     char                        *up_mold_value;
 };
diff --git a/lib/update.c b/lib/update.c
index e958717..7ede9f6 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -298,9 +298,11 @@ disir_update_continue (struct disir_update *update)
         // Manual resolution is in order.
         update->up_keyval = keyval;
 
+        update->up_name = strdup (keyval->kv_name.dv_string);
         update->up_config_value = stringify_value (&keyval->kv_value);
         update->up_mold_value = stringify_value (&target_def->de_value);
-        if (update->up_config_value == NULL || update->up_mold_value == NULL)
+        if (update->up_name == NULL || update->up_config_value == NULL
+            || update->up_mold_value == NULL)
         {
             return DISIR_STATUS_NO_MEMORY;
         }
@@ -338,7 +340,7 @@ disir_update_conflict (struct disir_update *update, const char **name,
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    *name = update->up_keyval->kv_name.dv_string;
+    *name = update->up_name;
     *keyval = update->up_config_value;
     *mold = update->up_mold_value;
 
@@ -360,6 +362,8 @@ conflict_resolved (struct disir_update *update)
     // Remove conflict state
     update->up_keyval = NULL;
     update->up_context_keyval = NULL;
+    free (update->up_name);
+    update->up_name = NULL;
     free (update->up_config_value);
     update->up_config_value = NULL;
     free (update->up_mold_value);
@@ -436,6 +440,7 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
     {
         free (up->up_mold_value);
     }
+    free (up->up_name);
     free (up->up_path);
     if (up->up_context_keyval)
     {
-- 
2.43.0


From bf7fcd8bf91ee34f0c221a54bb0f6a586fb9acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 135/162] fix: updates crash on a missing default and on a
 missing update

---
 lib/update.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/update.c b/lib/update.c
index 7ede9f6..0fc1d65 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -241,6 +241,13 @@ disir_update_continue (struct disir_update *update)
             break;
 
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
+        if (target_def == NULL)
+        {
+            log_debug (2, "keyval '%s' has no default in the mold", update->up_path);
+            dc_putcontext (&config_keyval);
+            update->up_context_keyval = NULL;
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
 
         // The target shall have an equivalent entry, with the default of the target version.
         status = set_target_value (update->up_config_target, update->up_path,
@@ -420,6 +427,11 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
     TRACE_ENTER ("");
 
+    if (update == NULL || *update == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     up = *update;
 
     if (config)
-- 
2.43.0


From f79a5f3892543a4468ad26440a4b5c09f3372a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 136/162] fix: an archive with values of the wrong type in its
 metadata or index throws

---
 lib/disir_archive_util.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 7628515..f724138 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -426,6 +426,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
+        if (group.is<std::string>() == false)
+        {
+            log_error ("group in backend '%s' is not a string", backend.c_str ());
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         // Find group table in entries.toml
         entries_group_table = entries_root.findChild (group.as<std::string>());
 
@@ -446,6 +452,13 @@ validate_archive_backend_entries (struct disir_archive *archive,
         // Locate config on disk
         for (const auto& entry : entries_group_table->as<toml::Table>())
         {
+            if (entry.second.is<std::string>() == false)
+            {
+                log_error ("version of entry '%s' in '%s' is not a string",
+                           entry.first.c_str (), backend.c_str ());
+                return DISIR_STATUS_WRONG_VALUE_TYPE;
+            }
+
             config_entry = backend + "/" + group.as<std::string>() + "/" + entry.first;
             iter = extract_content.find (config_entry);
             if (iter == extract_content.end ())
@@ -556,6 +569,12 @@ dx_archive_validate (struct disir_archive *archive,
 
     for (const auto& entry : backends->as<toml::Array>())
     {
+        if (entry.is<toml::Table>() == false)
+        {
+            log_error ("metadata backend is not an array of toml tables");
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         auto id = entry.find (ATTRIBUTE_KEY_ID);
 
         if (id == nullptr)
-- 
2.43.0


From a039e87097683754b55b7a53479dfa91ed871f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 137/162] fix: extracting an archive follows its links and
 paths out of the folder and ignores damage

---
 lib/disir_archive_util.cc | 48 +++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index f724138..e459bdc 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -141,14 +141,52 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     status = DISIR_STATUS_OK;
 
-    while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
+    while ((ret = archive_read_next_header (read_archive, &entry)) != ARCHIVE_EOF)
     {
-        snprintf(path, PATH_MAX, "%s/%s", extract_path, archive_entry_pathname (entry));
-        extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
+        if (ret != ARCHIVE_OK && ret != ARCHIVE_WARN)
+        {
+            log_error ("could not read archive: %s", archive_error_string (read_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        if (archive_entry_filetype (entry) == AE_IFDIR)
+        {
+            continue;
+        }
+
+        // An archive holds nothing but files. Links may lead out of the extract folder.
+        if (archive_entry_pathname (entry) == NULL || archive_entry_hardlink (entry) != NULL ||
+            archive_entry_filetype (entry) != AE_IFREG)
+        {
+            log_error ("archive holds something that is not a file");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        // The names in the archive are not used on disk: They may lead out of
+        // the extract folder, or be the name of both a file and a folder.
+        snprintf (path, PATH_MAX, "%s/%zu", extract_path, extract_content.size());
+        if (extract_content.insert (std::make_pair (archive_entry_pathname (entry),
+                                                    path)).second == false)
+        {
+            log_error ("archive holds '%s' twice", archive_entry_pathname (entry));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
         archive_entry_set_pathname (entry, path);
+        archive_entry_set_perm (entry, 0600);
+
+        ret = archive_write_header (write_archive, entry);
+        if (ret != ARCHIVE_OK && ret != ARCHIVE_WARN)
+        {
+            log_error ("could not write archive to disk: %s",
+                        archive_error_string (write_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
 
-        if (archive_write_header (write_archive, entry) == ARCHIVE_OK &&
-                                  archive_entry_size (entry) > 0)
+        if (archive_entry_size (entry) > 0)
         {
             while (1)
             {
-- 
2.43.0


From 3c1e7d674bad0c5d3f945ae58ee74a4af6b47edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 138/162] fix: extending an archive with an unlisted group
 makes an archive that cannot be read

---
 lib/disir_archive_util.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index e459bdc..bdc8f1e 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -461,6 +461,26 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Root in entries.toml
     toml::Value& entries_root = pr.value;
 
+    // Entries of a group that is not listed would be lost.
+    for (const auto& table : entries_root.as<toml::Table>())
+    {
+        bool listed = false;
+        for (const auto& group : groups.as<toml::Array>())
+        {
+            if (group.is<std::string>() && group.as<std::string>() == table.first)
+            {
+                listed = true;
+            }
+        }
+
+        if (listed == false)
+        {
+            log_error ("group '%s' in entries.toml of backend '%s' is not in metadata.toml",
+                       table.first.c_str (), backend.c_str ());
+            return DISIR_STATUS_NOT_EXIST;
+        }
+    }
+
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
-- 
2.43.0


From 0538dcc5e6b14b3af04299f557401bf4f86b4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 139/162] fix: extending an archive that lists a backend twice
 leaks

---
 lib/disir_export.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index c9ee0c4..af3cfce 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -77,7 +77,12 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
             return DISIR_STATUS_NO_MEMORY;
         }
 
-        archive->da_entries->insert (std::make_pair (id->as<std::string>(), backend_entry));
+        if (archive->da_entries->insert (std::make_pair (id->as<std::string>(),
+                                                         backend_entry)).second == false)
+        {
+            // The backend is listed twice
+            delete backend_entry;
+        }
     }
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From 002c28b730dc66cdb5058d3dbed4bc8968fe9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 140/162] fix: a section's error names a wrong version

---
 lib/validate.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index c355c5d..de52944 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -141,8 +141,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             char buffer[50];
             dx_log_context (context,
                             "%s is not a valid element for version %s",
-                            name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                            name, dc_version_string(buffer, 50, target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
@@ -616,7 +615,7 @@ validate_context_validity (struct disir_context *context)
     {
         char buffer[30];
         log_debug(2, "Validating CONFIG for version %s",
-                     dc_version_string(buffer, 50, &(context)->cx_config->cf_version));
+                     dc_version_string(buffer, 30, &(context)->cx_config->cf_version));
 
         invalid = validate_inclusive_restrictions (context);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_RESTRICTION_VIOLATED)
@@ -627,9 +626,12 @@ validate_context_validity (struct disir_context *context)
     }
     case DISIR_CONTEXT_MOLD:
     {
-        char buffer[30];
-        log_debug(2, "Validating MOLD for version %s",
-                     dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        if (dc_context_type (context) == DISIR_CONTEXT_MOLD)
+        {
+            char buffer[30];
+            log_debug(2, "Validating MOLD for version %s",
+                         dc_version_string(buffer, 30, &(context)->cx_mold->mo_version));
+        }
         // TODO: Clear error reports
         status = validate_children (context);
         // Update invalid with new state, if non were already present.
-- 
2.43.0


From 312ce98b3404af9fbf52ce55f36a0c161e47cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 141/162] fix: an import with an invalid mold on the system
 leaks the mold

---
 lib/disir_import.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 565342d..2a04b80 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -249,7 +249,9 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     status = verify_mold_support (instance, import, &mold);
     if (status != DISIR_STATUS_OK)
     {
-        // logged and error set
+        // logged and error set. An invalid mold is read nevertheless
+        if (mold)
+            disir_mold_finished (&mold);
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-- 
2.43.0


From 38f84ab1d48292fb0eef50c7fc8f1c501d23257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 142/162] fix: the name of an override entry is used as a
 format string

---
 lib/fslib/json/json_mold_namespace_override.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 56b0e51..c112867 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -418,7 +418,8 @@ MoldOverride::apply_override (struct disir_context *context_mold, struct mold_en
     struct disir_context *context_keyval = NULL;
     int eq;
 
-    status = dc_query_resolve_context (context_mold, entry->mo_name.c_str(), &context_keyval);
+    status = dc_query_resolve_context (context_mold, "%s", &context_keyval,
+                                       entry->mo_name.c_str());
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
     {
         return status;
-- 
2.43.0


From a35da3fac10b1d08bf4cfc2e1b1fbb9239c0d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 143/162] fix: generate overwrites entries of the top-level
 namespace without force

---
 cli/command_generate.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 367880c..f7aa815 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -120,8 +120,9 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
             // it is covered by a namespace mold
             // Either the entry is covered by the top-level namespace (if it exists)
             // or a subnamespace (which namespace_entry does not resolve
-            if ((root == NULL && namespaces.count ("/") == 1)
-                || (namespaces.count (namespace_entry) != 0 && configs.count (entry) == 0))
+            if (((root == NULL && namespaces.count ("/") == 1)
+                 || (root != NULL && namespaces.count (namespace_entry) != 0))
+                && configs.count (entry) == 0)
             {
                 m_cli->verbose() << "Adding entry " << entry << " to available set."
                                  << " (namespace entry)" << std::endl;
-- 
2.43.0


From 4a5d7bbc067110b76362be5a0c23a489ace431bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 144/162] fix: export from an unknown group reports success

---
 cli/command_export.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/command_export.cc b/cli/command_export.cc
index a1db558..0650531 100644
--- a/cli/command_export.cc
+++ b/cli/command_export.cc
@@ -77,12 +77,11 @@ CommandExport::handle_command (std::vector<std::string> &args)
         return (1);
     }
 
-    std::string group_id = m_cli->group_id();
-    if (opt_group_id)
+    if (opt_group_id && setup_group (args::get (opt_group_id)))
     {
-        group_id = args::get (opt_group_id);
-        m_cli->group_id (group_id);
+        return (1);
     }
+    std::string group_id = m_cli->group_id();
 
     std::set<std::string> entries_to_file;
     if (opt_entries)
-- 
2.43.0


From b799104620467c4c29c2174d4037a6f48fe21131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 145/162] fix: the import prompts never end at the end of the
 input

---
 cli/command_import.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aaf1569..aed50e9 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -189,7 +189,12 @@ CommandImport::prompt_finalize_yes_no_from_user ()
     do
     {
         std::cout << "\ndo you wish to commit the above changes? (y)es or (n)o ? ";
-        read_stdin (opt, 3);
+        opt[0] = '\0';
+        if (read_stdin (opt, 3) && !std::cin)
+        {
+            // No answer to be had
+            return DISIR_IMPORT_DISCARD;
+        }
         switch (opt[0])
         {
         case 'y':
@@ -209,16 +214,14 @@ int
 CommandImport::read_stdin (char *opt, unsigned int length)
 {
     std::string input;
-    std::getline (std::cin, input);
-
-    if (input.length() > length)
+    if (!std::getline (std::cin, input) || input.length() > length)
     {
         return(1);
     }
 
-    for (auto i = 0u; i < length || i < input.length(); i++)
+    for (auto i = 0u; i < length; i++)
     {
-        opt[i] = input[i];
+        opt[i] = i < input.length() ? input[i] : '\0';
     }
 
     return 0;
@@ -235,7 +238,8 @@ CommandImport::read_option (enum disir_import_option& option)
 
         if (read_stdin (&opt, 1))
         {
-            opt = 'h';
+            // Abort if there is no answer to be had
+            opt = !std::cin ? 'a' : 'h';
         }
 
         switch (opt)
-- 
2.43.0


From 8c9a31694ccfc09de5252ec14d779f94db02cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 146/162] fix: import announces only one of the entries with
 the same name

---
 cli/command_import.cc              | 26 ++++++++++++++------------
 include/disir/cli/command_import.h |  3 ++-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aed50e9..5fa2f0c 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -557,7 +557,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
                << ") and be updated to " << "(" << mold_version_string << ")";
         }
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries[std::make_pair (entry.ai_entry_id, entry.ai_group_id)] = ss.str();
         break;
     }
     case DISIR_IMPORT_FORCE:
@@ -565,7 +565,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry (" << entry.ai_version << ")"
            << " will overwrite system entry (" << system_entry_version << ")";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries[std::make_pair (entry.ai_entry_id, entry.ai_group_id)] = ss.str();
         break;
     }
     case DISIR_IMPORT_DO:
@@ -573,7 +573,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be imported without conflicts";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries[std::make_pair (entry.ai_entry_id, entry.ai_group_id)] = ss.str();
         break;
     }
     case DISIR_IMPORT_DISCARD:
@@ -581,7 +581,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be discarded";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries[std::make_pair (entry.ai_entry_id, entry.ai_group_id)] = ss.str();
         break;
     }
     default:
@@ -595,19 +595,21 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
 void
 CommandImport::print_import_commit_effects ()
 {
-    auto longest_entry = std::max_element (m_entries.begin(), m_entries.end(),
-                         [](const std::pair<std::string, std::string>& A,
-                            const std::pair<std::string, std::string>& B)
-                         {
-                             return A.first.length() < B.first.length();
-                         });
+    size_t entry_indent = 0;
+    size_t group_indent = 0;
 
-    auto indent = longest_entry->first.length();
+    for (const auto& entry : m_entries)
+    {
+        entry_indent = std::max (entry_indent, entry.first.first.length());
+        group_indent = std::max (group_indent, entry.first.second.length());
+    }
 
     std::cout << "\nthese changes would be made as a result of import:\n" << std::endl;
     for (const auto& entry : m_entries)
     {
-        fprintf (stdout, "%-*s  %s\n", (int)indent, entry.first.c_str(), entry.second.c_str());
+        fprintf (stdout, "%-*s  %-*s  %s\n", (int)entry_indent, entry.first.first.c_str(),
+                                            (int)group_indent, entry.first.second.c_str(),
+                                            entry.second.c_str());
     }
 }
 
diff --git a/include/disir/cli/command_import.h b/include/disir/cli/command_import.h
index 82e1bf9..82e37de 100644
--- a/include/disir/cli/command_import.h
+++ b/include/disir/cli/command_import.h
@@ -87,7 +87,8 @@ namespace disir
                                          const char *system_entry_version,
                                          enum disir_import_option opt);
     private:
-        std::map<std::string, std::string> m_entries;
+        //! The announced effect of each entry, by entry id and group id
+        std::map<std::pair<std::string, std::string>, std::string> m_entries;
     };
 }
 
-- 
2.43.0


From ac61d443fed8279fd4d441273f82462987f18839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 147/162] fix: inspecting an archive without entries reads past
 the list of entries

---
 cli/command_import.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 5fa2f0c..8447da3 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -302,21 +302,14 @@ CommandImport::read_archive_entry (struct disir_import *import, int entry,
 void
 CommandImport::print_archive_entries (std::list<struct archive_entry_info>& info)
 {
-    // find longest entry_id string
-    auto longest_entry = std::max_element (info.begin(), info.end(),
-                         [](struct archive_entry_info A, struct archive_entry_info B)
-                         {
-                             return A.ai_entry_id.length() < B.ai_entry_id.length();
-                         });
-    // find longest group_id string
-    auto longest_group = std::max_element (info.begin(), info.end(),
-                         [](struct archive_entry_info A, struct archive_entry_info B)
-                         {
-                             return A.ai_group_id.length() < B.ai_group_id.length();
-                         });
-
-    auto entry_id_len = longest_entry->ai_entry_id.length();
-    auto group_id_len = longest_group->ai_group_id.length();
+    // find the longest entry_id and group_id strings
+    size_t entry_id_len = 0;
+    size_t group_id_len = 0;
+    for (const auto& entry : info)
+    {
+        entry_id_len = std::max (entry_id_len, entry.ai_entry_id.length());
+        group_id_len = std::max (group_id_len, entry.ai_group_id.length());
+    }
 
     if (entry_id_len < strlen ("entry_id"))
     {
-- 
2.43.0


From 305c8294a7e2f3d7d94e8a2d1ea5964d7238828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 148/162] fix: dump cuts long values

---
 cli/command_dump.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cli/command_dump.cc b/cli/command_dump.cc
index b829201..a54664b 100644
--- a/cli/command_dump.cc
+++ b/cli/command_dump.cc
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <memory>
 #include <set>
+#include <vector>
 
 #include <disir/disir.h>
 
@@ -135,16 +136,22 @@ CommandDump::output_config_context (struct disir_context *context, int indent)
 
         if (dc_context_type (element) == DISIR_CONTEXT_KEYVAL)
         {
-            char buffer[1024];
-            int32_t output_size;
-            status = dc_get_value (element, 1024, buffer, &output_size);
+            std::vector<char> buffer (1024);
+            int32_t output_size = 0;
+            status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            if (status == DISIR_STATUS_OK && output_size >= (int32_t) buffer.size())
+            {
+                // The value is longer than that
+                buffer.resize (output_size + 1);
+                status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            }
             if (status != DISIR_STATUS_OK)
             {
                 std::cerr << "error getting value...";
             }
             else
             {
-                std::cout << buffer;
+                std::cout << buffer.data();
             }
 
             std::cout << std::endl;
-- 
2.43.0


From 00a4d882ef85dff0edf799608f2de1b3f430a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 149/162] fix: generate of an entry with a long name overflows
 the stack

---
 cli/command_generate.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index f7aa815..34b4e64 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <algorithm>
 #include <memory>
+#include <vector>
 #include <limits.h>
 
 #include <disir/disir.h>
@@ -95,7 +96,6 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
     std::set<std::string> entries_to_generate;
     std::set<std::string> available = available_configs();
     std::set<std::string> namespaces = available_namespaces();
-    char namespace_entry[PATH_MAX];
     std::set<std::string> configs;
 
     // XXX: Ignore if this went shait? Or return in full error?
@@ -114,6 +114,8 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
         m_cli->verbose() << "Generating entries in user supplied list." << std::endl;
         for (const auto& entry : args::get (opt_entries))
         {
+            std::vector<char> buffer (entry.size() + 2);
+            char *namespace_entry = buffer.data();
             const char *root = fslib_namespace_entry (entry.c_str(), namespace_entry);
 
             // Add entry to avalable set if it does not already exist, and
-- 
2.43.0


From 2789e9a81e39491f5a32df18d9c154cf34c2a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 150/162] fix: a failing export leaves its temporary archive
 behind

---
 cli/command_export.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_export.cc b/cli/command_export.cc
index 0650531..d27f423 100644
--- a/cli/command_export.cc
+++ b/cli/command_export.cc
@@ -204,6 +204,10 @@ CommandExport::populate_archive (const char *path, const char *dest_path,
         if (error)
             std::cout << error << std::endl;
 
+        // An archive that is left to us to place elsewhere is discarded
+        if (archive != NULL && dest_path != NULL)
+            disir_archive_finalize (m_cli->disir(), NULL, &archive);
+
         return(1);
     }
 
-- 
2.43.0


From 9f60e3d2e2d6d654eb2e74e19e8851c965bbd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 151/162] fix: write configs and molds to a new file that takes
 the place of the old one first when complete

---
 lib/fslib/write.c | 180 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 150 insertions(+), 30 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index c60549a..d7c5116 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -3,9 +3,145 @@
 
 // system
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
+#include <stdlib.h>
+#include <unistd.h>
 
 
+//! A file that takes the place of another one first when it is written in full.
+struct replacement
+{
+    FILE    *re_file;
+    char    re_target[PATH_MAX];
+    //! Empty if the target is written in place.
+    char    re_path[PATH_MAX];
+};
+
+//! STATIC API
+static enum disir_status
+replacement_failed (struct disir_instance *instance, const char *filepath, int error)
+{
+    // TODO: Check errno and set appropriate error
+    // TODO: Use threadsafe strerror, or refactor entirely
+    disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (error));
+    return DISIR_STATUS_FS_ERROR;
+}
+
+//! STATIC API
+static enum disir_status
+replacement_open (struct disir_instance *instance, const char *filepath, struct replacement *re)
+{
+    struct stat statbuf;
+    const char *separator;
+    mode_t mode = 0666;
+    int exists;
+    int length;
+    int fd;
+
+    memset (re, 0, sizeof (*re));
+    snprintf (re->re_target, PATH_MAX, "%s", filepath);
+
+    // The file a symbolic link leads to is replaced, not the link.
+    if (lstat (filepath, &statbuf) == 0 && S_ISLNK (statbuf.st_mode)
+        && realpath (filepath, re->re_target) == NULL)
+    {
+        re->re_file = fopen (filepath, "w+");
+        return re->re_file ? DISIR_STATUS_OK : replacement_failed (instance, filepath, errno);
+    }
+
+    exists = (stat (re->re_target, &statbuf) == 0);
+    if (exists)
+    {
+        // A file that may not be written to may not be replaced.
+        fd = open (re->re_target, O_WRONLY | O_CLOEXEC);
+        if (fd < 0 && errno != ENOENT)
+        {
+            return replacement_failed (instance, filepath, errno);
+        }
+        exists = (fd >= 0);
+    }
+    if (exists)
+    {
+        close (fd);
+        mode = statbuf.st_mode & 0777;
+    }
+
+    separator = strrchr (re->re_target, '/');
+    length = separator ? (int) (separator - re->re_target + 1) : 0;
+    fd = -1;
+    for (unsigned int attempt = 0; fd < 0 && attempt < 10000; attempt++)
+    {
+        if (snprintf (re->re_path, PATH_MAX, "%.*s.disir-%ld-%u", length, re->re_target,
+                      (long) getpid (), attempt) >= PATH_MAX)
+        {
+            return replacement_failed (instance, filepath, ENAMETOOLONG);
+        }
+        fd = open (re->re_path, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, mode);
+        if (fd < 0 && errno != EEXIST)
+        {
+            break;
+        }
+    }
+
+    if (fd < 0)
+    {
+        // An existing file may be writable in a directory that is not.
+        re->re_path[0] = '\0';
+        if (exists && (errno == EACCES || errno == EPERM || errno == EROFS))
+        {
+            re->re_file = fopen (re->re_target, "w+");
+        }
+        return re->re_file ? DISIR_STATUS_OK : replacement_failed (instance, filepath, errno);
+    }
+
+    // The owner and the permissions of what is replaced are kept if possible.
+    if (exists)
+    {
+        int kept = fchown (fd, statbuf.st_uid, statbuf.st_gid);
+        kept = fchmod (fd, mode);
+        (void) kept;
+    }
+
+    re->re_file = fdopen (fd, "w+");
+    if (re->re_file == NULL)
+    {
+        int error = errno;
+        close (fd);
+        unlink (re->re_path);
+        return replacement_failed (instance, filepath, error);
+    }
+    return DISIR_STATUS_OK;
+}
+
+//! STATIC API
+static enum disir_status
+replacement_close (struct disir_instance *instance, const char *filepath, struct replacement *re,
+                   enum disir_status status)
+{
+    if (fclose (re->re_file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "closing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    if (re->re_path[0] == '\0')
+    {
+        return status;
+    }
+
+    if (status == DISIR_STATUS_OK && rename (re->re_path, re->re_target) != 0)
+    {
+        disir_error_set (instance, "replacing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+    if (status != DISIR_STATUS_OK)
+    {
+        unlink (re->re_path);
+    }
+    return status;
+}
+
 //! FSLIB API
 enum disir_status
 fslib_plugin_config_write (struct disir_instance *instance, struct disir_register_plugin *plugin,
@@ -92,25 +228,17 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
         }
     }
 
-    FILE *file;
+    struct replacement re;
 
-    file = fopen (filepath, "w+");
-    if (file == NULL)
-    {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
-        return DISIR_STATUS_FS_ERROR;
-    }
-
-    status = func_serialize (instance, config, file);
-    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    status = replacement_open (instance, filepath, &re);
+    if (status != DISIR_STATUS_OK)
     {
-        disir_error_set (instance, "closing %s: %s", filepath, strerror (errno));
-        status = DISIR_STATUS_FS_ERROR;
+        // Already set
+        return status;
     }
 
-    return status;
+    status = func_serialize (instance, config, re.re_file);
+    return replacement_close (instance, filepath, &re, status);
 }
 
 //! FSLIB API
@@ -187,25 +315,17 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
         }
     }
 
-    FILE *file;
+    struct replacement re;
 
-    file = fopen (filepath, "w+");
-    if (file == NULL)
-    {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
-        return DISIR_STATUS_FS_ERROR;
-    }
-
-    status = func_serialize (instance, mold, file);
-    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    status = replacement_open (instance, filepath, &re);
+    if (status != DISIR_STATUS_OK)
     {
-        disir_error_set (instance, "closing %s: %s", filepath, strerror (errno));
-        status = DISIR_STATUS_FS_ERROR;
+        // Already set
+        return status;
     }
 
-    return status;
+    status = func_serialize (instance, mold, re.re_file);
+    return replacement_close (instance, filepath, &re, status);
 }
 
 //! FSLIB API
-- 
2.43.0


From 99d1118b41f58e095b45ab02e2d1e5bd337a2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 152/162] fix: reading or removing a config that another
 process removes in the meantime finds nothing

---
 lib/fslib/read.c  | 4 +++-
 lib/fslib/write.c | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index 6730aef..4f9a28d 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -66,12 +66,14 @@ fslib_plugin_config_read (struct disir_instance *instance,
     {
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
+        // Another process may have removed it in the meantime
+        status = (errno == ENOENT ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_FS_ERROR);
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
         if (mold == NULL)
         {
             disir_mold_finished (&resolved_mold);
         }
-        return DISIR_STATUS_FS_ERROR;
+        return status;
     }
 
     status = func_unserialize (instance, file, resolved_mold, config);
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index d7c5116..190a6f9 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -369,8 +369,9 @@ fslib_plugin_config_remove (struct disir_instance *instance,
         // Delete the file
         if (remove (filepath) != 0)
         {
+            // Another process may have removed it in the meantime
+            status = (errno == ENOENT ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_FS_ERROR);
             disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
-            status = DISIR_STATUS_FS_ERROR;
         }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
-- 
2.43.0


From dd654bc21fd822b6ed60629f128242ecfb0e9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 153/162] fix: two exports started within a second may write to
 the same temporary archive

---
 lib/disir_archive_util.cc | 66 +++++++++++----------------------------
 1 file changed, 19 insertions(+), 47 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index bdc8f1e..ac97455 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -17,7 +17,9 @@ extern "C" {
 #include <fstream>
 #include <iostream>
 #include <ftw.h>
-#include <ctime>
+#include <unistd.h>
+#include <errno.h>
+#include <stdlib.h>
 
 //! INTERNAL API
 char *dx_archive_create_temp_folder (void)
@@ -253,31 +255,14 @@ out:
     return status;
 }
 
-//! STATIC FUNCTION
-static void
-dx_random_string (unsigned int length, unsigned int seed, char *dest)
-{
-    std::srand (std::time (0) + seed);
-
-    for (auto i = 0u ; i < length; i++)
-    {
-        *(dest++) = std::rand() % 25 + 97;
-    }
-
-    *dest = '\0';
-}
-
 //! INTERNAL API
 enum disir_status
 dx_archive_open_write (struct disir_archive *archive)
 {
     enum disir_status status;
-    char temp_archive_path[PATH_MAX];
-    char random_suffix[20];
+    char temp_archive_path[] = "/tmp/arc.XXXXXX";
     struct archive *ar;
-    struct stat st;
-    int ret;
-    int retry_count = 1;
+    int fd = -1;
 
     if (archive == NULL)
     {
@@ -308,37 +293,20 @@ dx_archive_open_write (struct disir_archive *archive)
         goto out;
     }
 
-    // Seed until temp file path is unique
-    while (retry_count <= 100)
+    // The file is created here to be of no other archive
+    fd = mkstemp (temp_archive_path);
+    if (fd < 0)
     {
-        dx_random_string (10, retry_count, random_suffix);
-        temp_archive_path[0] = '\0';
-        snprintf (temp_archive_path, PATH_MAX, "/tmp/arc.%s", random_suffix);
-
-        archive->da_temp_archive_path = strdup (temp_archive_path);
-        if (archive->da_temp_archive_path == NULL)
-        {
-            status = DISIR_STATUS_NO_MEMORY;
-        }
-        ret = stat (temp_archive_path, &st);
-        if (ret == 0)
-        {
-            log_debug (3, "archive with temp name '%s' already exists, retrying...",
-                          temp_archive_path);
-            status = DISIR_STATUS_FS_ERROR;
-        }
-        else
-        {
-            status = DISIR_STATUS_OK;
-            break;
-        }
-        retry_count++;
+        log_error ("unable to create temporary archive: %s", strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
     }
+    close (fd);
 
-    if (status != DISIR_STATUS_OK)
+    archive->da_temp_archive_path = strdup (temp_archive_path);
+    if (archive->da_temp_archive_path == NULL)
     {
-        log_error ("archive with temp name '%s' already exists, failed after %d retries",
-                   temp_archive_path, retry_count);
+        status = DISIR_STATUS_NO_MEMORY;
         goto out;
     }
 
@@ -363,6 +331,10 @@ out:
             if (archive_write_free (ar) != ARCHIVE_OK)
                 log_error ("unable to free archive: %s", archive_error_string (ar));
         }
+        if (fd >= 0)
+        {
+            (void) remove (temp_archive_path);
+        }
     }
 
     return status;
-- 
2.43.0


From d30066f2544b8e862f9e10b8c4250bd43037c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 154/162] fix: two exports to the same archive write to the
 same incomplete file

---
 lib/disir_archive_util.cc | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index ac97455..c12b4bc 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -19,6 +19,7 @@ extern "C" {
 #include <ftw.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 
 //! INTERNAL API
@@ -806,19 +807,50 @@ copy_file (const char *from, const char *to)
     return DISIR_STATUS_OK;
 }
 
+//! STATIC FUNCTION
+//! Create a file beside the path that no other process uses.
+static bool
+create_beside (const char *path, std::string& created)
+{
+    int fd = -1;
+
+    for (int attempt = 0; fd < 0 && attempt < 10000; attempt++)
+    {
+        created = std::string (path) + "." + std::to_string (getpid ())
+                                     + "-" + std::to_string (attempt);
+        fd = open (created.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0666);
+        if (fd < 0 && errno != EEXIST)
+        {
+            break;
+        }
+    }
+
+    if (fd < 0)
+    {
+        return false;
+    }
+
+    close (fd);
+    return true;
+}
+
 //! STATIC FUNCTION
 //! Put the file in place of whatever exists at the destination only when it is completely copied.
 static enum disir_status
 replace_file (const char *from, const char *to)
 {
     enum disir_status status;
-    std::string incomplete (to);
+    std::string incomplete;
 
-    incomplete += ".incomplete";
+    if (create_beside (to, incomplete) == false)
+    {
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     status = copy_file (from, incomplete.c_str());
     if (status != DISIR_STATUS_OK)
     {
+        (void) remove (incomplete.c_str());
         return status;
     }
 
-- 
2.43.0


From 33956c11342b7aa85c476e62006616eb30115528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 155/162] fix: a mold given by path is not found by its
 namespace and long paths overflow buffers

---
 lib/fslib/query.cc | 80 +++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 0792003..9f579b5 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <dirent.h>
 #include <errno.h>
+#include <limits.h>
 #include <sstream>
 
 #include <iostream>
@@ -520,71 +521,64 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
                                    int *namespace_entry)
 {
     enum disir_status status;
-    enum disir_status override_status;
-    char *sep = NULL;
-    char suffix[128];
-
-    strncpy (override_filepath, entry_path, PATH_MAX);
-
-    sep = strrchr (override_filepath, '.');
-    if (sep == NULL)
-        return DISIR_STATUS_FS_ERROR;
+    const std::string oid (".o");
+    std::string path (entry_path);
+    std::string directory;
+    std::string suffix;
 
-    strncpy (suffix, sep, 128);
+    *filepath = '\0';
+    *override_filepath = '\0';
 
-    // first check if the requested entry is an override entry
-    if (strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
+    std::size_t separator = path.find_last_of ('/');
+    if (separator != std::string::npos)
     {
-        strncpy (filepath, entry_path, PATH_MAX);
-
-        sep = strrchr (filepath, '.');
-        if (sep == NULL)
-            return DISIR_STATUS_FS_ERROR;
-
-        sep -= strlen(".o");
-        *sep = '\0';
-
-        strcat (filepath, suffix);
-
-        override_status = fslib_stat_filepath (instance, override_filepath, statbuf);
+        directory = path.substr (0, separator + 1);
     }
-    else
+
+    std::size_t dot = path.find_last_of ('.');
+    if (dot != std::string::npos && dot >= directory.size())
     {
-        *override_filepath = '\0';
-        strncpy (filepath, entry_path, PATH_MAX);
+        suffix = path.substr (dot);
     }
 
-    status = fslib_stat_filepath (instance, filepath, statbuf);
-    if (status == DISIR_STATUS_OK)
+    std::string nspath = directory + "__namespace" + suffix;
+    if (path.size() >= PATH_MAX || nspath.size() >= PATH_MAX)
     {
-        return status;
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    sep = strrchr (filepath, '/');
-    if (sep == NULL)
+    // first check if the requested entry is an override entry
+    std::string stem = path.substr (0, path.size() - suffix.size());
+    if (suffix.empty() == false && stem.size() > directory.size() + oid.size()
+        && stem.compare (stem.size() - oid.size(), oid.size(), oid) == 0)
     {
-        return DISIR_STATUS_FS_ERROR;
+        strcpy (override_filepath, path.c_str());
+        path = stem.substr (0, stem.size() - oid.size()) + suffix;
     }
 
-    strcat (filepath, "/__namespace.");
-    strcat (filepath, suffix);
-
+    strcpy (filepath, path.c_str());
     status = fslib_stat_filepath (instance, filepath, statbuf);
-    if (status != DISIR_STATUS_OK)
+    if (status != DISIR_STATUS_NOT_EXIST)
     {
         return status;
     }
 
-    // Only set namspace entry flag if it's the only one we found
-    if (override_status != DISIR_STATUS_OK && status == DISIR_STATUS_OK
-        && namespace_entry != NULL)
+    // The nominal file does not exist - is it covered by a namespace entry?
+    if (fslib_stat_filepath (instance, nspath.c_str(), statbuf) != DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "no mold at '%s'", filepath);
+        return DISIR_STATUS_NOT_EXIST;
+    }
+
+    disir_error_clear (instance);
+    strcpy (filepath, nspath.c_str());
+    if (namespace_entry != NULL)
     {
         *namespace_entry = 1;
     }
 
-    return (override_status == DISIR_STATUS_OK
-            && status != DISIR_STATUS_OK
-            ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK);
+    return DISIR_STATUS_OK;
 }
 
 //! FSLIB API
-- 
2.43.0


From f16557475cee7d652e0c82e85457b49686d8a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 156/162] fix: writing the library configuration to a full disk
 passes for success

---
 lib/instance_mold.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/instance_mold.c b/lib/instance_mold.c
index 819feb7..1cb9ec0 100644
--- a/lib/instance_mold.c
+++ b/lib/instance_mold.c
@@ -140,13 +140,19 @@ disir_libdisir_config_to_disk (struct disir_instance *instance, struct disir_con
     if (file == NULL)
     {
         errsv = errno;
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errsv));
         log_error ("failed to open libdisir config file: %s", strerror (errsv));
         // XXX: This return code should probably be better...
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
     status = dio_toml_serialize_config (instance, config, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        errsv = errno;
+        disir_error_set (instance, "closing %s: %s", filepath, strerror (errsv));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
-- 
2.43.0


From 21a47789c6d3cd2665659dbdbcf8e22a98b7ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 157/162] fix: an archive extended into another spelling of its
 own path is deleted

---
 lib/disir_archive_util.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c12b4bc..d393eb2 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -870,17 +870,19 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
 {
     enum disir_status status;
     int ret;
-    char archive_path_with_extension[4096];
+    std::string path_with_extension (new_archive_path);
+    const char *archive_path_with_extension;
     const char *ext = NULL;
-
-    strcpy (archive_path_with_extension, new_archive_path);
+    struct stat existing;
+    struct stat written;
 
     // Append extension if it doesn't already exists
     ext = strrchr (new_archive_path, '.');
     if (ext == NULL || strcmp (ext, ".disir") != 0)
     {
-        strcat (archive_path_with_extension, ".disir");
+        path_with_extension += ".disir";
     }
+    archive_path_with_extension = path_with_extension.c_str();
 
     // CASE 1: Finalizing a new archive to given location
     if (existing_archive_path == NULL)
@@ -905,6 +907,14 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
             return DISIR_STATUS_FS_ERROR;
         }
 
+        // The two paths may be spellings of the same one
+        if (stat (existing_archive_path, &existing) == 0
+            && stat (archive_path_with_extension, &written) == 0
+            && existing.st_dev == written.st_dev && existing.st_ino == written.st_ino)
+        {
+            return DISIR_STATUS_OK;
+        }
+
         ret = remove (existing_archive_path);
         if (ret != 0)
         {
-- 
2.43.0


From db25bc4a4c708e307c878425766f11fb457aff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 158/162] fix: finalizing an archive to an empty or a long path
 accesses memory out of bounds

---
 lib/disir_archive.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index c4d7b4b..30247c3 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -287,7 +287,7 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
 
 //! STATIC FUNCTION
 static enum disir_status
-get_dirname (const char *archive_path, char *dirpath)
+get_dirname (const char *archive_path, std::string& dirpath)
 {
     enum disir_status status;
     char *temp_path = NULL;
@@ -309,7 +309,7 @@ get_dirname (const char *archive_path, char *dirpath)
         status = DISIR_STATUS_FS_ERROR;
     }
 
-    strcpy (dirpath, temp_dirname);
+    dirpath = temp_dirname;
     free (temp_path);
 
     return status;
@@ -324,7 +324,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     struct disir_archive *ar;
     int ret;
     struct stat st;
-    char extract_folder_path[4096];
+    std::string extract_folder_path;
 
     if (instance == NULL || archive == NULL)
     {
@@ -344,7 +344,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     log_info("Finalizing archive to archive_path (%s)", archive_path);
 
     // Make sure archive path is not a directory
-    if (archive_path && archive_path[strlen (archive_path)-1] == '/')
+    if (archive_path && (*archive_path == '\0' || archive_path[strlen (archive_path)-1] == '/'))
     {
         disir_error_set (instance, "invalid archive path: '%s' is a directory", archive_path);
         return DISIR_STATUS_INVALID_ARGUMENT;
@@ -360,10 +360,11 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
         }
 
         // Assert that we have write permission in directory
-        status = dx_assert_write_permission (extract_folder_path);
+        status = dx_assert_write_permission (extract_folder_path.c_str());
         if (status != DISIR_STATUS_OK)
         {
-            disir_error_set (instance, "unable to write to path: '%s'", extract_folder_path);
+            disir_error_set (instance, "unable to write to path: '%s'",
+                                       extract_folder_path.c_str());
             return status;
         }
     }
-- 
2.43.0


From 4079e3121bcf31ef5266b1edaccf171c152ccfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 159/162] fix: extending an archive at an empty path reads out
 of bounds

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index af3cfce..8b87200 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -535,7 +535,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     const char *ext = NULL;
 
     // Make sure archive path is not a directory
-    if (archive_path[strlen(archive_path)-1] == '/')
+    if (*archive_path == '\0' || archive_path[strlen(archive_path)-1] == '/')
     {
         disir_error_set (instance, "invalid archive path: input path is a directory");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From a9a4159dc83ced2299bb266a40e14dd56478ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 160/162] fix: extending an archive drops the configs of a
 group named as one of its metadata files

---
 lib/disir_export.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8b87200..b9115fe 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -145,6 +145,22 @@ out:
     return status;
 }
 
+//! STATIC FUNCTION
+static bool
+is_metadata_file (struct disir_archive *archive, const std::string& name)
+{
+    if (name == METADATA_FILENAME)
+        return true;
+
+    for (const auto& kv : *archive->da_entries)
+    {
+        if (name == kv.first + "/entries.toml")
+            return true;
+    }
+
+    return false;
+}
+
 //! STATIC FUNCTION
 static enum disir_status
 populate_archive_entry (struct archive *archive, struct archive_entry *entry,
@@ -591,10 +607,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     for (const auto& entry : extract_content)
     {
         // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first.find ("entries.toml") != std::string::npos)
-            continue;
-
-        if (entry.first.find ("metadata.toml") != std::string::npos)
+        if (is_metadata_file (write_archive, entry.first))
             continue;
 
         status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-- 
2.43.0


From 912234ca50c2706c21bb34cd982ef0d2433f94ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 161/162] fix: entries that are symbolic links to files are not
 listed

---
 lib/fslib/query.cc | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 9f579b5..c2750f0 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -8,8 +8,10 @@
 #include <algorithm>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 #include <sstream>
+#include <sys/stat.h>
 
 #include <iostream>
 
@@ -47,6 +49,30 @@ fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id)
     return DISIR_STATUS_OK;
 }
 
+//! The type of a directory entry: a symbolic link to a file is as good as the file, while links to
+//! directories are not followed. Not every filesystem provides the type with the entry.
+static unsigned char
+entry_type (DIR *directory, struct dirent *dp)
+{
+    struct stat statbuf;
+
+    if (dp->d_type != DT_LNK && dp->d_type != DT_UNKNOWN)
+        return dp->d_type;
+
+    if (fstatat (dirfd (directory), dp->d_name, &statbuf, 0) != 0)
+        return DT_UNKNOWN;
+
+    if (S_ISREG (statbuf.st_mode))
+        return DT_REG;
+
+    if (S_ISDIR (statbuf.st_mode)
+        && fstatat (dirfd (directory), dp->d_name, &statbuf, AT_SYMLINK_NOFOLLOW) == 0
+        && S_ISDIR (statbuf.st_mode))
+        return DT_DIR;
+
+    return DT_UNKNOWN;
+}
+
 //! STATIC API
 //! An incomplete listing is not handed out
 static enum disir_status
@@ -131,7 +157,8 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
         ef << dp->d_name;
         std::string name = ef.str();
 
-        if (dp->d_type == DT_REG)
+        unsigned char type = entry_type (directory, dp);
+        if (type == DT_REG)
         {
             // Check that our file extension (suffix) is valid for this file entry
             if (name.size() > suffix.size()
@@ -160,7 +187,7 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
                 disir_entry_finished (&mold_entry);
             }
         }
-        else if (dp->d_type == DT_DIR)
+        else if (type == DT_DIR)
         {
             // Must be a better way to check this..
             if (strcmp (dp->d_name, ".") == 0) {}
@@ -272,7 +299,8 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
         ef << dp->d_name;
         std::string name = ef.str();
 
-        if (dp->d_type == DT_REG)
+        unsigned char type = entry_type (directory, dp);
+        if (type == DT_REG)
         {
             // Check that our file extension (suffix) is valid for this file entry
             if (name.size() > suffix.size()
@@ -374,7 +402,7 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                 }
             }
         }
-        else if (dp->d_type == DT_DIR)
+        else if (type == DT_DIR)
         {
             // Must be a better way to check this..
             if (strcmp (dp->d_name, ".") == 0) {}
-- 
2.43.0


From 14c684886082e42a124c16186f4e8af6db91d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 162/162] fix: an interrupted or failing write of the library
 configuration destroys the existing one

---
 lib/fslib/write.c         | 44 +++++++++++++++++++++------------------
 lib/include/replacement.h | 37 ++++++++++++++++++++++++++++++++
 lib/instance_mold.c       | 23 +++++++-------------
 3 files changed, 68 insertions(+), 36 deletions(-)
 create mode 100644 lib/include/replacement.h

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 190a6f9..e8e4624 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -8,15 +8,9 @@
 #include <stdlib.h>
 #include <unistd.h>
 
+// private
+#include "replacement.h"
 
-//! A file that takes the place of another one first when it is written in full.
-struct replacement
-{
-    FILE    *re_file;
-    char    re_target[PATH_MAX];
-    //! Empty if the target is written in place.
-    char    re_path[PATH_MAX];
-};
 
 //! STATIC API
 static enum disir_status
@@ -28,9 +22,10 @@ replacement_failed (struct disir_instance *instance, const char *filepath, int e
     return DISIR_STATUS_FS_ERROR;
 }
 
-//! STATIC API
-static enum disir_status
-replacement_open (struct disir_instance *instance, const char *filepath, struct replacement *re)
+//! INTERNAL API
+enum disir_status
+dx_replacement_open (struct disir_instance *instance, const char *filepath,
+                     struct replacement *re)
 {
     struct stat statbuf;
     const char *separator;
@@ -40,7 +35,10 @@ replacement_open (struct disir_instance *instance, const char *filepath, struct
     int fd;
 
     memset (re, 0, sizeof (*re));
-    snprintf (re->re_target, PATH_MAX, "%s", filepath);
+    if (snprintf (re->re_target, PATH_MAX, "%s", filepath) >= PATH_MAX)
+    {
+        return replacement_failed (instance, filepath, ENAMETOOLONG);
+    }
 
     // The file a symbolic link leads to is replaced, not the link.
     if (lstat (filepath, &statbuf) == 0 && S_ISLNK (statbuf.st_mode)
@@ -51,6 +49,12 @@ replacement_open (struct disir_instance *instance, const char *filepath, struct
     }
 
     exists = (stat (re->re_target, &statbuf) == 0);
+    if (exists && S_ISREG (statbuf.st_mode) == 0)
+    {
+        // There is nothing to replace in a device or a pipe.
+        re->re_file = fopen (filepath, "w+");
+        return re->re_file ? DISIR_STATUS_OK : replacement_failed (instance, filepath, errno);
+    }
     if (exists)
     {
         // A file that may not be written to may not be replaced.
@@ -114,10 +118,10 @@ replacement_open (struct disir_instance *instance, const char *filepath, struct
     return DISIR_STATUS_OK;
 }
 
-//! STATIC API
-static enum disir_status
-replacement_close (struct disir_instance *instance, const char *filepath, struct replacement *re,
-                   enum disir_status status)
+//! INTERNAL API
+enum disir_status
+dx_replacement_close (struct disir_instance *instance, const char *filepath,
+                      struct replacement *re, enum disir_status status)
 {
     if (fclose (re->re_file) != 0 && status == DISIR_STATUS_OK)
     {
@@ -230,7 +234,7 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
 
     struct replacement re;
 
-    status = replacement_open (instance, filepath, &re);
+    status = dx_replacement_open (instance, filepath, &re);
     if (status != DISIR_STATUS_OK)
     {
         // Already set
@@ -238,7 +242,7 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     status = func_serialize (instance, config, re.re_file);
-    return replacement_close (instance, filepath, &re, status);
+    return dx_replacement_close (instance, filepath, &re, status);
 }
 
 //! FSLIB API
@@ -317,7 +321,7 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
 
     struct replacement re;
 
-    status = replacement_open (instance, filepath, &re);
+    status = dx_replacement_open (instance, filepath, &re);
     if (status != DISIR_STATUS_OK)
     {
         // Already set
@@ -325,7 +329,7 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     status = func_serialize (instance, mold, re.re_file);
-    return replacement_close (instance, filepath, &re, status);
+    return dx_replacement_close (instance, filepath, &re, status);
 }
 
 //! FSLIB API
diff --git a/lib/include/replacement.h b/lib/include/replacement.h
new file mode 100644
index 0000000..9197429
--- /dev/null
+++ b/lib/include/replacement.h
@@ -0,0 +1,37 @@
+#ifndef _LIBDISIR_PRIVATE_REPLACEMENT_H
+#define _LIBDISIR_PRIVATE_REPLACEMENT_H
+
+#include <limits.h>
+#include <stdio.h>
+
+#include <disir/disir.h>
+
+//! A file that takes the place of another one first when it is written in full.
+struct replacement
+{
+    FILE    *re_file;
+    char    re_target[PATH_MAX];
+    //! Empty if the target is written in place.
+    char    re_path[PATH_MAX];
+};
+
+//! \brief Open the file to write what is to replace the contents of filepath.
+//!
+//! \return DISIR_STATUS_FS_ERROR if filepath cannot be written to. The instance error is set.
+//! \return DISIR_STATUS_OK on success, re_file is to be written to.
+//!
+enum disir_status
+dx_replacement_open (struct disir_instance *instance, const char *filepath,
+                     struct replacement *re);
+
+//! \brief Put what is written in the place of filepath, or give it up unless status is OK.
+//!
+//! \return the input status unless it is DISIR_STATUS_OK.
+//! \return DISIR_STATUS_FS_ERROR if the file could not be completed. The instance error is set.
+//! \return DISIR_STATUS_OK on success.
+//!
+enum disir_status
+dx_replacement_close (struct disir_instance *instance, const char *filepath,
+                      struct replacement *re, enum disir_status status);
+
+#endif // _LIBDISIR_PRIVATE_REPLACEMENT_H
diff --git a/lib/instance_mold.c b/lib/instance_mold.c
index 1cb9ec0..587898a 100644
--- a/lib/instance_mold.c
+++ b/lib/instance_mold.c
@@ -12,6 +12,7 @@
 
 // private
 #include "log.h"
+#include "replacement.h"
 
 #define INTERNAL_MOLD_DOCSTRING "The Disir Schema for the internal libdisir configuration."
 #define LOG_FILEPATH_DOCSTRING "The full filepath to the logfile libdisir will output to."
@@ -133,27 +134,17 @@ disir_libdisir_config_to_disk (struct disir_instance *instance, struct disir_con
                                const char *filepath)
 {
     enum disir_status status;
-    FILE *file;
-    int errsv;
+    struct replacement re;
 
-    file = fopen (filepath, "w+");
-    if (file == NULL)
+    status = dx_replacement_open (instance, filepath, &re);
+    if (status != DISIR_STATUS_OK)
     {
-        errsv = errno;
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errsv));
-        log_error ("failed to open libdisir config file: %s", strerror (errsv));
+        log_error ("failed to open libdisir config file: %s", disir_error (instance));
         // XXX: This return code should probably be better...
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    status = dio_toml_serialize_config (instance, config, file);
-    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
-    {
-        errsv = errno;
-        disir_error_set (instance, "closing %s: %s", filepath, strerror (errsv));
-        status = DISIR_STATUS_FS_ERROR;
-    }
-
-    return status;
+    status = dio_toml_serialize_config (instance, config, re.re_file);
+    return dx_replacement_close (instance, filepath, &re, status);
 }
 
-- 
2.43.0

