From de0b25658b14399fc9e262082b46c4fc135c737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 01/22] fix: load: reject negative numbers for unsigned values

strtoull() accepts a leading minus sign and negates the result modulo
2^64, so '-1' was loaded into an 8-byte UINT as 18446744073709551615, and
'-18446744073709551615' into any UINT as 1.
---
 src/load.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index b0c8483..31ca147 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1892,7 +1892,9 @@ static inline cyaml_err_t cyaml__read_uint64_t(
 	errno = 0;
 	temp = strtoull(value, &end, 0);
 
-	if (end == value || end == NULL || *end != '\0' || errno == ERANGE) {
+	/* Note: strtoull accepts a minus sign, and negates modulo 2^64. */
+	if (end == value || end == NULL || *end != '\0' || errno == ERANGE ||
+	    (temp != 0 && strchr(value, '-') != NULL)) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Invalid uint64_t value: '%s'\n",
 				value);
-- 
2.43.0


From 83f92137ec0265d553214c2a3e5c0c9bf607f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 02/22] fix: load: reject float underflow for strict 4-byte
 values

CYAML_FLAG_STRICT is documented to forbid values that would cause overflow
or underflow.  For 4-byte values only overflow was rejected: '1e-60' was
silently loaded as zero.
---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index 31ca147..0718e8b 100644
--- a/src/load.c
+++ b/src/load.c
@@ -422,6 +422,10 @@ static cyaml_err_t cyaml__store_float(
 			if (value > FLT_MAX || value < -FLT_MAX) {
 				return CYAML_ERR_INVALID_VALUE;
 			}
+			if (value < FLT_MIN && value > -FLT_MIN &&
+			    value != (double)(float)value) {
+				return CYAML_ERR_INVALID_VALUE;
+			}
 		}
 
 		fvalue = (float)value;
-- 
2.43.0


From b9c6559daf98d47c3f2250cb57aa2b1ac6087a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 03/22] fix: load: treat numerical flags values as unsigned

Numerical values in flags sequences are documented to be unsigned, and
that is how they are saved, but they were parsed as signed, so values
with the top bit of an 8-byte type set could not be loaded.
---
 src/load.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/load.c b/src/load.c
index 0718e8b..e4ef2be 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2147,16 +2147,12 @@ static cyaml_err_t cyaml__set_flag(
 	}
 
 	if (!(schema->flags & CYAML_FLAG_STRICT)) {
-		long long temp;
-		char *end = NULL;
+		uint64_t temp;
 		uint64_t max = (~(uint64_t)0) >> ((8 - schema->data_size) * 8);
 
-		errno = 0;
-		temp = strtoll(value, &end, 0);
-
-		if (!(end == value || end == NULL || *end != '\0' ||
-		      errno == ERANGE || temp < 0 || (uint64_t)temp > max)) {
-			*flags_out |= ((uint64_t)temp);
+		if (cyaml__read_uint64_t(ctx, value, &temp) == CYAML_OK &&
+		    temp <= max) {
+			*flags_out |= temp;
 			return CYAML_OK;
 		}
 	}
-- 
2.43.0


From a7df3b03b04f9f097af50864457515f834352949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 04/22] fix: load: check flags data size before using it as a
 shift count

A flags schema with a data size over eight bytes is an error, but it was
only noticed after shifting by a negative count for a numerical value.
---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index e4ef2be..0126208 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2184,7 +2184,7 @@ static cyaml_err_t cyaml__read_flags_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
-	if (schema->data_size == 0) {
+	if (schema->data_size == 0 || schema->data_size > sizeof(value)) {
 		return CYAML_ERR_INVALID_DATA_SIZE;
 	}
 
-- 
2.43.0


From fe847d9d64c5cb1785be162a313750679044391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 05/22] fix: load: check bitfield data size before using it as
 a shift count

A bitfield schema with a data size over eight bytes is an error, but it
was only noticed after shifting by the out of range bit offsets it allows.
---
 src/load.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/load.c b/src/load.c
index 0126208..76fc3a5 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2340,6 +2340,10 @@ static cyaml_err_t cyaml__read_bitfield_value(
 	cyaml_err_t err = CYAML_OK;
 	const yaml_event_t *const event = cyaml__current_event(ctx);
 
+	if (schema->data_size > sizeof(value)) {
+		return CYAML_ERR_INVALID_DATA_SIZE;
+	}
+
 	while (!exit) {
 		cyaml_event_t cyaml_event;
 		err = cyaml_get_next_event(ctx);
-- 
2.43.0


From f260b47184d6a7e8afd4a600d1f6d55741d590e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 06/22] fix: utf8: consume only the valid part of a truncated
 sequence

When a continuation byte was invalid the sequence length was reduced by the
number of good bytes instead of to it, so the comparison could step over
the string terminator and read beyond the end of the string.
---
 src/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 6e32218..58e4f27 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -63,7 +63,7 @@ unsigned cyaml_utf8_get_codepoint(
 			if ((s[i] & 0xc0) != 0x80) {
 				/* Need to shorten length so we don't consume
 				 * this byte with this invalid character. */
-				*len -= i;
+				*len = i;
 				goto invalid;
 			}
 
-- 
2.43.0


From 4badf176af8d40ce456c3ff6a0a460c847710ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 07/22] fix: load: calculate sequence entry offset in size_t

---
 src/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 76fc3a5..59e843f 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2832,7 +2832,7 @@ static cyaml_err_t cyaml__seq_entry(
 	cyaml__log(ctx->config, CYAML_LOG_DEBUG,
 			"Load: Sequence entry: %u (%"PRIu32" bytes)\n",
 			state->sequence.count, schema->data_size);
-	value_data += schema->data_size * state->sequence.count;
+	value_data += (size_t)schema->data_size * state->sequence.count;
 	state->sequence.count++;
 
 	if (schema->type != CYAML_SEQUENCE_FIXED) {
-- 
2.43.0


From 1d6625c07b46c78fc05c09667dd3767a0cdada08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 08/22] fix: load: reject sequences whose count does not fit
 the count member

---
 src/load.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 59e843f..995a8d3 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2816,7 +2816,7 @@ static cyaml_err_t cyaml__seq_entry(
 	ctx->state->line = event->start_mark.line;
 	ctx->state->column = event->start_mark.column;
 
-	if (state->sequence.count + 1 > state->schema->sequence.max) {
+	if (state->sequence.count >= state->schema->sequence.max) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Load: Excessive entries (%"PRIu32" max) "
 				"in sequence.\n",
@@ -2824,6 +2824,18 @@ static cyaml_err_t cyaml__seq_entry(
 		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
 	}
 
+	/* The new count must be representable in the client's count member. */
+	if (schema->type != CYAML_SEQUENCE_FIXED &&
+	    state->sequence.count_size > 0 &&
+	    state->sequence.count_size < sizeof(uint64_t) &&
+	    ((uint64_t)state->sequence.count + 1) >>
+			(state->sequence.count_size * 8) != 0) {
+		cyaml__log(ctx->config, CYAML_LOG_ERROR,
+				"Load: Sequence count too big for %u bytes.\n",
+				(unsigned)state->sequence.count_size);
+		return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+	}
+
 	err = cyaml__data_handle_pointer(ctx, schema, event, &value_data);
 	if (err != CYAML_OK) {
 		return err;
-- 
2.43.0


From 205f1686d3a93676d8b87741f82497e38af9641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 09/22] fix: load: pass the sequence itself to sequence
 validation callbacks

---
 src/load.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index 995a8d3..d805a99 100644
--- a/src/load.c
+++ b/src/load.c
@@ -2902,7 +2902,11 @@ static cyaml_err_t cyaml__seq_end(
 	if (schema->sequence.validation_cb != NULL) {
 		if (!schema->sequence.validation_cb(
 				ctx->config->validation_ctx,
-				schema, state->data, state->sequence.count)) {
+				schema,
+				(schema->flags & CYAML_FLAG_POINTER) ?
+						state->sequence.data :
+						state->data,
+				state->sequence.count)) {
 			return CYAML_ERR_INVALID_VALUE;
 		}
 	}
-- 
2.43.0


From d33f25ddc6016066416fae0afa3384b963879bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 10/22] fix: free: step over whole fixed-length entries of
 sequences

The entries of a sequence of embedded fixed-length sequences were taken to
be as big as one entry of the inner sequence, so pointers were freed twice
and others leaked.  Offsets and counts are no longer limited to 32 bits.
---
 src/free.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/free.c b/src/free.c
index 266cd7b..b0ab81b 100644
--- a/src/free.c
+++ b/src/free.c
@@ -24,6 +24,7 @@
 
 #include <stdbool.h>
 #include <assert.h>
+#include <inttypes.h>
 #include <string.h>
 
 #include "data.h"
@@ -60,18 +61,20 @@ static void cyaml__free_sequence(
 		uint64_t count)
 {
 	const cyaml_schema_value_t *schema = sequence_schema->sequence.entry;
-	uint32_t data_size = schema->data_size;
+	size_t data_size = schema->data_size;
 
 	cyaml__log(cfg, CYAML_LOG_DEBUG,
-			"Free: Freeing sequence with count: %u\n", count);
+			"Free: Freeing sequence with count: %"PRIu64"\n", count);
 
 	if (schema->flags & CYAML_FLAG_POINTER) {
 		data_size = sizeof(data);
+	} else if (schema->type == CYAML_SEQUENCE_FIXED) {
+		data_size *= schema->sequence.max;
 	}
 
-	for (unsigned i = 0; i < count; i++) {
+	for (uint64_t i = 0; i < count; i++) {
 		cyaml__log(cfg, CYAML_LOG_DEBUG,
-				"Free: Freeing sequence entry: %u\n", i);
+				"Free: Freeing sequence entry: %"PRIu64"\n", i);
 		cyaml__free_value(cfg, schema, data + data_size * i, 0);
 	}
 }
-- 
2.43.0


From 9eee4922a024f5ce8a7cda893f48eb4946bc58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 11/22] fix: copy: do not copy entries of a NULL sequence

An optional NULL pointer to a sequence was only noticed after the sequence
had been pushed with its count, so its entries were then copied from and to
the pointer's own place in the structure, overflowing it.
---
 src/copy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/copy.c b/src/copy.c
index 64176aa..d2ca632 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -457,6 +457,10 @@ static cyaml_err_t cyaml__clone_value(
 		}
 		ctx->state->sequence.count = seq_count;
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
+		if (err == CYAML_ERR_BAD_PARAM_NULL_DATA) {
+			/* There are no entries to copy, so leave sequence. */
+			cyaml__stack_pop(ctx);
+		}
 		if (err != CYAML_OK) {
 			return err;
 		}
-- 
2.43.0


From 41062cbb67489d8957274983ad9e2c9dac663a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 12/22] fix: copy: copy NULL values that the schema allows

Data with a NULL value in a CYAML_FLAG_POINTER_NULL sequence entry or
mapping field can be loaded, saved and freed, but copying it failed.
---
 src/copy.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index d2ca632..fb98773 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -396,6 +396,26 @@ static cyaml_err_t cyaml__write_sequence_count(
 	return err;
 }
 
+/**
+ * Get the result of copying a value after handling its pointer failed.
+ *
+ * \param[in]  schema  The schema for the value to be copied.
+ * \param[in]  err     The error from handling the value's pointer.
+ * \return \ref CYAML_OK if the value is allowed to be NULL, and is NULL,
+ *         or `err` otherwise.
+ */
+static inline cyaml_err_t cyaml__null_value_err(
+		const cyaml_schema_value_t *schema,
+		cyaml_err_t err)
+{
+	if (err == CYAML_ERR_BAD_PARAM_NULL_DATA &&
+	    cyaml__flag_check_all(schema->flags, CYAML_FLAG_POINTER_NULL)) {
+		return CYAML_OK;
+	}
+
+	return err;
+}
+
 /**
  * Handle a YAML event corresponding to a YAML data value.
  *
@@ -427,7 +447,7 @@ static cyaml_err_t cyaml__clone_value(
 		 */
 		err = cyaml__data_handle_pointer(ctx, schema, &data, &copy);
 		if (err != CYAML_OK) {
-			return err;
+			return cyaml__null_value_err(schema, err);
 		}
 	}
 
@@ -462,7 +482,7 @@ static cyaml_err_t cyaml__clone_value(
 			cyaml__stack_pop(ctx);
 		}
 		if (err != CYAML_OK) {
-			return err;
+			return cyaml__null_value_err(schema, err);
 		}
 		err = cyaml__write_sequence_count(ctx, schema, seq_count);
 		ctx->state->data = data;
-- 
2.43.0


From 146e73c019ae097725fb50ab6f2b83dd2a92d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 13/22] fix: copy: size top level sequences as their entries
 are stored

The allocation for a top level sequence that is not a pointer took entries
that are pointers or fixed-length sequences to be as big as what the schema
of the entry describes.  A top level fixed-length sequence copied as many
entries as the caller passed, instead of its own count.
---
 src/copy.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index fb98773..47c4b88 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -506,8 +506,14 @@ static cyaml_err_t cyaml__clone_start(
 		cyaml_ctx_t *ctx)
 {
 	cyaml_state_t *state = ctx->state;
+	unsigned seq_count = ctx->seq_count;
+
+	if (state->schema->type == CYAML_SEQUENCE_FIXED) {
+		seq_count = state->schema->sequence.max;
+	}
+
 	return cyaml__clone_value(ctx, state->schema,
-			state->data, ctx->seq_count, state->copy);
+			state->data, seq_count, state->copy);
 }
 
 /**
@@ -671,9 +677,20 @@ static size_t cyaml__get_data_len(
 		const cyaml_schema_value_t *schema,
 		unsigned seq_count)
 {
-	size_t len = cyaml__is_sequence(schema) ?
-			schema->sequence.entry->data_size :
-			schema->data_size;
+	size_t len = schema->data_size;
+
+	if (cyaml__is_sequence(schema)) {
+		const cyaml_schema_value_t *entry = schema->sequence.entry;
+
+		if (entry->flags & CYAML_FLAG_POINTER) {
+			len = sizeof(NULL);
+		} else {
+			len = entry->data_size;
+			if (entry->type == CYAML_SEQUENCE_FIXED) {
+				len *= entry->sequence.max;
+			}
+		}
+	}
 
 	if (schema->type == CYAML_SEQUENCE) {
 		len *= seq_count;
-- 
2.43.0


From 844372a8feed50ed21f16984219af43de50024ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 14/22] fix: copy: copy empty sequences that have an allocation

An empty sequence that isn't NULL needed a zero sized allocation, which is
treated as an allocation failure.
---
 src/copy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/copy.c b/src/copy.c
index 47c4b88..54a75d6 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -257,7 +257,11 @@ static cyaml_err_t cyaml__data_handle_pointer(
 			delta = strlen((const char *) *value_data_io) + 1;
 			break;
 		case CYAML_SEQUENCE:
-			delta *= state->sequence.count;
+			/* An empty sequence still needs an allocation, since
+			 * its data isn't NULL. */
+			if (state->sequence.count > 0) {
+				delta *= state->sequence.count;
+			}
 			break;
 		case CYAML_SEQUENCE_FIXED:
 			delta *= schema->sequence.max;
-- 
2.43.0


From 92c50923fecf03d61c59473bb7282f10a6204458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 15/22] fix: save: sign extend enumeration values before
 looking them up

---
 src/save.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/save.c b/src/save.c
index 6fbcfe3..3e8e82c 100644
--- a/src/save.c
+++ b/src/save.c
@@ -687,12 +687,13 @@ static cyaml_err_t cyaml__write_enum(
 		const cyaml_schema_value_t *schema,
 		const uint8_t *data)
 {
-	int64_t number;
+	uint64_t raw;
 	cyaml_err_t err;
 
-	number = (int64_t)cyaml_data_read(schema->data_size, data, &err);
+	raw = cyaml_data_read(schema->data_size, data, &err);
 	if (err == CYAML_OK) {
 		const cyaml_strval_t *strings = schema->enumeration.strings;
+		int64_t number = cyaml_sign_pad(raw, schema->data_size);
 		const char *string = NULL;
 		for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 			if (number == strings[i].val) {
-- 
2.43.0


From 13efa0a40356fde8b7510133547c61064da8b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 16/22] fix: save: emit only flags whose bits are all set

---
 src/save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 3e8e82c..01b3b83 100644
--- a/src/save.c
+++ b/src/save.c
@@ -812,6 +812,7 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 		const cyaml_schema_value_t *schema,
 		uint64_t number)
 {
+	const uint64_t value = number;
 	yaml_event_t event;
 	cyaml_err_t err;
 	int ret;
@@ -828,7 +829,8 @@ static cyaml_err_t cyaml__emit_flags_sequence(
 	for (uint32_t i = 0; i < schema->enumeration.count; i++) {
 		const cyaml_strval_t *strval = &schema->enumeration.strings[i];
 		uint64_t flag = (uint64_t)strval->val;
-		if (number & flag) {
+		/* Only use flags whose bits are all in the value. */
+		if ((number & flag) && ((value & flag) == flag)) {
 			err = cyaml__emit_scalar(ctx, schema, strval->str,
 					YAML_STR_TAG);
 			if (err != CYAML_OK) {
-- 
2.43.0


From a1d108f3af7df5ab91aa8011bcba2c516ef67024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 17/22] fix: save: keep the precision of 4-byte floats

---
 src/save.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 01b3b83..9d3c389 100644
--- a/src/save.c
+++ b/src/save.c
@@ -14,6 +14,7 @@
 
 #include <inttypes.h>
 #include <stdbool.h>
+#include <stdlib.h>
 #include <assert.h>
 #include <limits.h>
 
@@ -552,7 +553,13 @@ static const char * cyaml__get_float(
 {
 	static char string[64];
 
-	sprintf(string, "%g", value);
+	/* Use the least precision that gives back the same float. */
+	for (int precision = 6; precision <= 9; precision++) {
+		sprintf(string, "%.*g", precision, value);
+		if (strtof(string, NULL) == (float)value) {
+			break;
+		}
+	}
 
 	return string;
 }
-- 
2.43.0


From 40d9f0b7c1f5c855a0e9f5b1ddd20d0b8179c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 18/22] fix: save: report output lost when the file is closed

---
 src/save.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 9d3c389..4171142 100644
--- a/src/save.c
+++ b/src/save.c
@@ -1392,7 +1392,10 @@ cyaml_err_t cyaml_save_file(
 
 	/* Cleanup */
 	yaml_emitter_delete(&emitter);
-	fclose(file);
+	if (fclose(file) != 0) {
+		/* Some of the output didn't make it to the file. */
+		return CYAML_ERR_LIBYAML_EMITTER;
+	}
 
 	return CYAML_OK;
 }
-- 
2.43.0


From f9a5bb82de5dde9f4246669d9fa00d1e732018cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 19/22] fix: load: accept an empty default for a missing
 sequence

---
 src/load.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/load.c b/src/load.c
index d805a99..ccdc839 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1444,6 +1444,9 @@ static cyaml_err_t cyaml__field_apply_default(
 		schema_default = schema->sequence.missing;
 		if (schema->type == CYAML_SEQUENCE) {
 			seq_count = schema->sequence.missing_count;
+			if (seq_count == 0) {
+				return CYAML_OK;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
-- 
2.43.0


From 3223d2dcc54924bd5fba13acea1ee3cd210b3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 20/22] fix: load: reject a default sequence longer than its
 count can hold

---
 src/load.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/load.c b/src/load.c
index ccdc839..aeb9431 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1447,6 +1447,16 @@ static cyaml_err_t cyaml__field_apply_default(
 			if (seq_count == 0) {
 				return CYAML_OK;
 			}
+			/* Must be representable in client's count member. */
+			if (field->count_size > 0 &&
+			    field->count_size < sizeof(seq_count) &&
+			    seq_count >> (field->count_size * 8) != 0) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"Load: Default sequence count "
+						"too big for %u bytes.\n",
+						(unsigned)field->count_size);
+				return CYAML_ERR_SEQUENCE_ENTRIES_MAX;
+			}
 		} else {
 			seq_count = schema->sequence.max;
 		}
-- 
2.43.0


From 8c74b02dcfc6a28d4892c6affae2647897b34931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 21/22] fix: Load, Save: Don't log a NULL libyaml problem
 string

When libyaml runs out of memory it reports an error but leaves the
parser's or emitter's problem string NULL, which was passed on to the
client's log function for a %s conversion.
---
 src/load.c | 3 ++-
 src/save.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/load.c b/src/load.c
index aeb9431..91ba3f3 100644
--- a/src/load.c
+++ b/src/load.c
@@ -1057,7 +1057,8 @@ static cyaml_err_t cyaml_get_next_event(
 		if (!yaml_parser_parse(ctx->parser, event)) {
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
 					"Load: libyaml: %s\n",
-					ctx->parser->problem);
+					ctx->parser->problem != NULL ?
+					ctx->parser->problem : "out of memory");
 			return CYAML_ERR_LIBYAML_PARSER;
 		}
 		e_ctx->have_event = true;
diff --git a/src/save.c b/src/save.c
index 4171142..6ccb224 100644
--- a/src/save.c
+++ b/src/save.c
@@ -133,7 +133,8 @@ static cyaml_err_t cyaml__emit_event_helper(
 	if (valid == 0) {
 		cyaml__log(ctx->config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to emit event: %s\n",
-				ctx->emitter->problem);
+				ctx->emitter->problem != NULL ?
+				ctx->emitter->problem : "out of memory");
 		return CYAML_ERR_LIBYAML_EMITTER;
 	}
 
@@ -1340,7 +1341,8 @@ static cyaml_err_t cyaml__save(
 	if (!yaml_emitter_flush(emitter)) {
 		cyaml__log(config, CYAML_LOG_ERROR,
 				"Save: LibYAML: Failed to flush emitter: %s\n",
-				emitter->problem);
+				emitter->problem != NULL ?
+				emitter->problem : "out of memory");
 		err = CYAML_ERR_LIBYAML_EMITTER;
 	}
 
-- 
2.43.0


From 48d576c9121ec887dd40bf3d434e4241fbf89789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 22/22] fix: Save, Copy: Don't log a NULL field key in the
 backtrace

The mapping state's field pointer is advanced before a field's value is
handled, so the backtrace named the next field, and passed the client's
log function the NULL key at the end of the fields for the last one.
---
 src/copy.c | 21 +++++++++++++++++----
 src/save.c | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/copy.c b/src/copy.c
index 54a75d6..895e16e 100644
--- a/src/copy.c
+++ b/src/copy.c
@@ -307,13 +307,26 @@ static void cyaml__backtrace(
 
 	for (uint32_t idx = ctx->stack_idx - 1; idx != 0; idx--) {
 		cyaml_state_t *state = ctx->stack + idx;
+		const cyaml_schema_field_t *field;
+
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
-			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in mapping field: %s\n",
-					state->mapping.field->key);
+			field = state->mapping.field;
+			assert(field != NULL);
+			/* The field was advanced before its value was
+			 * handled. */
+			if (field != state->schema->mapping.fields) {
+				field--;
+			}
+			if (field->key != NULL) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping field: %s\n",
+						field->key);
+			} else {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+			}
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
diff --git a/src/save.c b/src/save.c
index 6ccb224..35e9143 100644
--- a/src/save.c
+++ b/src/save.c
@@ -450,13 +450,26 @@ static void cyaml__backtrace(
 
 	for (uint32_t idx = ctx->stack_idx - 1; idx != 0; idx--) {
 		cyaml_state_t *state = ctx->stack + idx;
+		const cyaml_schema_field_t *field;
+
 		switch (state->state) {
 		case CYAML_STATE_IN_MAP_KEY: /* Fall through. */
 		case CYAML_STATE_IN_MAP_VALUE:
-			assert(state->mapping.field != NULL);
-			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-					"  in mapping field: %s\n",
-					state->mapping.field->key);
+			field = state->mapping.field;
+			assert(field != NULL);
+			/* The field was advanced before its value was
+			 * handled. */
+			if (field != state->schema->mapping.fields) {
+				field--;
+			}
+			if (field->key != NULL) {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping field: %s\n",
+						field->key);
+			} else {
+				cyaml__log(ctx->config, CYAML_LOG_ERROR,
+						"  in mapping\n");
+			}
 			break;
 		case CYAML_STATE_IN_SEQUENCE:
 			cyaml__log(ctx->config, CYAML_LOG_ERROR,
-- 
2.43.0

