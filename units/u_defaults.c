/*
 * Missing mapping fields.
 *   V_VALIDATE  cyaml__mapping_bitfieid_validate (any number of fields)
 *   V_APPLY     cyaml__field_apply_default (mappings and sequences; dispatch)
 *   V_SCALAR    cyaml__field_scalar_apply_default (numbers and names)
 *   V_STRING    the same for strings of any length
 */
#define V_UNIT_GHOSTS unsigned copies, scalars, tracked; cyaml_err_t code; const cyaml_schema_value_t *w_schema; const uint8_t *w_data; \
	const void *w_default; unsigned w_count; uint8_t *w_target; bool failed, witness; const void *w_field;
#define V_LOG_TEXTS
#include "common.h"
#include <float.h>
#include "libc_model.h"
#include "fields.h"
static cyaml_err_t v_copy(const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data,
		unsigned seq_count, cyaml_data_t **data_out);
#define cyaml_copy v_copy
static uint64_t g_k;
static uint32_t g_ssize;
static uint8_t *g_struct;
static uint32_t *g_set;
#define SET(k) ((g_set[(k) / 32] & ((uint32_t)1 << ((k) % 32))) != 0)
#define OPT(k) ((g_tab[k].value.flags & CYAML_FLAG_OPTIONAL) != 0)
#include "load.c"
#include "load_env.h"
static cyaml_state_t g_st;
static cyaml_schema_field_t g_f;
#define S (g_f.value)
#define T (S.type)

#if defined(V_VALIDATE)
static cyaml_err_t cyaml__field_apply_default(const cyaml_ctx_t *ctx, const cyaml_schema_field_t *field, uint8_t *data)
{
	size_t k = (size_t)(field - g_tab);
	V_ASSERT("a default is for this mapping's field", ctx == &g_ctx && k < g_count && field == g_tab + k);
	V_ASSERT("[P09] fields that were present are not touched", !SET(k));
	V_ASSERT("[P09] only optional fields have a default", OPT(k));
	V_ASSERT("the default is stored in its field", data == g_struct + field->data_offset);
	V_ASSERT("nothing follows a failed default", !g.failed);
	if (k == g_k) { g.tracked += g.tracked < 2; }
	cyaml_err_t e = v_err("apply.result");
	g.failed = e != CYAML_OK;
	g.code = e;
	return e;
}
#define CLAUSES(E) \
E("on success every required field was present", IMP(RET == CYAML_OK && g_k < g_count, SET(g_k) || OPT(g_k))) \
E("and every missing optional field got its default, once", IMP(RET == CYAML_OK && g_k < g_count, g.tracked == (SET(g_k) ? 0 : 1))) \
E("a failed default is reported", IMP(g.failed, RET == g.code)) \
E("otherwise only a required field that is missing is an error", IMP(!g.failed && RET != CYAML_OK, RET == CYAML_ERR_MAPPING_FIELD_MISSING && g.witness))
#define FN cyaml__mapping_bitfieid_validate
#define ARGS (const cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST)

#elif defined(V_APPLY)
static uint8_t g_def;
static bool g_hasdef;
static uint64_t g_oldcount;
static cyaml_err_t cyaml__field_scalar_apply_default(const cyaml_ctx_t *ctx, const cyaml_schema_field_t *field, uint8_t *data)
{
	g.scalars++;
	g.w_field = field;
	g.w_data = data;
	V_ASSERT("a default is for this mapping", ctx == &g_ctx);
	return g.code = v_err("scalar.result");
}
static cyaml_err_t v_copy(const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data,
		unsigned seq_count, cyaml_data_t **data_out)
{
	V_ASSERT("[P09,P10] the client's allocator is used for the copy", config == &g_cfg);
	g.copies++;
	g.w_schema = schema;
	g.w_default = data;
	g.w_count = seq_count;
	/* contract of cyaml_copy (copy_top): into the pointer given, or what it points at */
	g.w_target = (schema->flags & CYAML_FLAG_POINTER) ? (uint8_t *)data_out : (uint8_t *)*data_out;
	return g.code = v_err("copy.result");
}
#define SCALARTYPE (T == CYAML_INT || T == CYAML_UINT || T == CYAML_BOOL || T == CYAML_ENUM || T == CYAML_FLAGS || T == CYAML_FLOAT || T == CYAML_STRING || T == CYAML_BITFIELD)
#define CSZ_OK (g_f.count_size >= 1 && g_f.count_size <= 8)
#define EMPTY (T == CYAML_SEQUENCE && S.sequence.missing_count == 0)
#define TOOMANY (T == CYAML_SEQUENCE && CSZ_OK && g_f.count_size < 8 && ((uint64_t)S.sequence.missing_count >> (8 * g_f.count_size)) != 0)
#define AGG (T == CYAML_MAPPING || T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define PLACE (g_struct + g_f.data_offset)
#define COUNT_AT spec_uint_at(g_struct + g_f.count_offset, g_f.count_size)
#define CLAUSES(E) \
E("scalars have their default stored in their place", IMP(SCALARTYPE, g.scalars == 1 && g.copies == 0 && RET == g.code && g.w_field == (const void *)&g_f && g.w_data == PLACE)) \
E("mappings and sequences without default stay empty", IMP((AGG && (!g_hasdef || EMPTY)) || T == CYAML_IGNORE, RET == CYAML_OK && g.copies == 0 && g.scalars == 0)) \
E("a default is copied, deeply, to its place", IMP(AGG && g_hasdef && !EMPTY && !TOOMANY, g.copies == 1 && g.w_schema == &S && g.w_default == (const void *)&g_def && g.w_target == PLACE)) \
E("all its entries are copied", IMP(g.copies != 0, g.w_count == (T == CYAML_SEQUENCE ? S.sequence.missing_count : T == CYAML_SEQUENCE_FIXED ? S.sequence.max : 0))) \
E("a failed copy is reported", IMP(g.copies != 0 && g.code != CYAML_OK, RET == g.code)) \
E("with the number of entries in the count member", IMP(RET == CYAML_OK && T == CYAML_SEQUENCE && g.copies != 0, CSZ_OK && COUNT_AT == S.sequence.missing_count)) \
E("only sequences have a count", IMP((T != CYAML_SEQUENCE || g.copies == 0 || g.code != CYAML_OK) && CSZ_OK, COUNT_AT == g_oldcount)) \
E("what can be copied and counted is accepted", IMP(g.copies != 0 && g.code == CYAML_OK && (T != CYAML_SEQUENCE || CSZ_OK), RET == CYAML_OK)) \
E("a count that the member cannot hold is an error", IMP(TOOMANY && g_hasdef, RET != CYAML_OK && g.copies == 0)) \
E("a type that cannot be loaded is an error", IMP(T > CYAML_IGNORE, RET == CYAML_ERR_BAD_TYPE_IN_SCHEMA))
#define FN cyaml__field_apply_default
#define ARGS (const cyaml_ctx_t *ctx, const cyaml_schema_field_t *field, uint8_t *data)
#define FRAME __CPROVER_assigns(GHOST, __CPROVER_object_whole(g_struct))

#else
static uint64_t g_missing;
static double g_dmissing;
#define SMISS ((int64_t)g_missing)
#define SIGNED (T == CYAML_INT || T == CYAML_ENUM)
#define UNSIGNED (T == CYAML_UINT || T == CYAML_FLAGS || T == CYAML_BITFIELD)
#define NONE (T == CYAML_FLOAT ? g_dmissing == 0 : T == CYAML_BOOL ? (g_missing & 1) == 0 : g_missing == 0)
#define SZ_OK (g_size >= 1 && g_size <= 8)
#define BITS (8 * g_size)
#define SMAX_ ((int64_t)((((uint64_t)1) << (BITS - 1)) - 1))
#define IN_S (g_size == 8 || (SMISS <= SMAX_ && SMISS >= -SMAX_ - 1))
#define IN_U (g_size == 8 || (g_missing >> (BITS == 64 ? 0 : BITS)) == 0)
static bool same_float(const uint8_t *p)
{
	if (g_size == sizeof(float)) {
		float f;
		uint8_t *x = (uint8_t *)&f;
		x[0] = p[0]; x[1] = p[1]; x[2] = p[2]; x[3] = p[3];
		return f == (float)g_dmissing || f != f;
	}
	double d;
	uint8_t *x = (uint8_t *)&d;
	x[0] = p[0]; x[1] = p[1]; x[2] = p[2]; x[3] = p[3];
	x[4] = p[4]; x[5] = p[5]; x[6] = p[6]; x[7] = p[7];
	return d == g_dmissing || d != d;
}
#ifdef V_SCALAR
#define CLAUSES(E) \
E("without default the member stays zero", IMP(NONE, RET == CYAML_OK && SAME_SLOT && g.mem_allocs == 0)) \
E("a signed default or name is stored as its value", IMP(!NONE && SIGNED && RET == CYAML_OK, SZ_OK && IN_S && spec_int_at(TARGET, g_size) == SMISS)) \
E("an unsigned default or set of names is stored as its value", IMP(!NONE && UNSIGNED && RET == CYAML_OK, SZ_OK && IN_U && spec_uint_at(TARGET, g_size) == g_missing)) \
E("a boolean default is stored as a loaded one", IMP(!NONE && T == CYAML_BOOL && RET == CYAML_OK, SZ_OK && spec_uint_at(TARGET, g_size) == 1)) \
E("a floating point default is stored in the member's precision", IMP(!NONE && T == CYAML_FLOAT && RET == CYAML_OK, same_float(TARGET))) \
E("a default that fits is stored", IMP(!NONE && g.mem_fails == 0 && SZ_OK && ((SIGNED && IN_S) || (UNSIGNED && IN_U) || T == CYAML_BOOL), RET == CYAML_OK)) \
E("a floating point default that fits is stored", IMP(!NONE && g.mem_fails == 0 && T == CYAML_FLOAT && (g_size == 4 || g_size == 8) && !CB_SET && (g_size == 8 || !(S.flags & CYAML_FLAG_STRICT)), RET == CYAML_OK)) \
E("a member of impossible size is an error", IMP(!NONE && T != CYAML_FLOAT && !SZ_OK, RET != CYAML_OK) && IMP(!NONE && T == CYAML_FLOAT && g_size != 4 && g_size != 8, RET != CYAML_OK)) \
E("a pointer member gets one allocation of the declared size", IMP(g_is_ptr && !NONE && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)
#define CB_SET (S.floating_point.validation_cb != NULL)
#else
#define NOSTR (g_nostr)
static bool g_nostr;
static char *g_out; static size_t g_out_size;
#define SMIN ((size_t)S.string.min)
#define SMAX ((size_t)S.string.max)
#define LEN_OK (SMIN <= SMAX && g.value_len >= SMIN && g.value_len <= SMAX)
#define STR (g_is_ptr ? (const char *)g.mem_last : (const char *)g_out)
#define CLAUSES(E) \
E("without default the member stays zero", IMP(NOSTR, RET == CYAML_OK && SAME_SLOT && g.mem_allocs == 0)) \
E("every byte of the default is stored, and a terminator follows it", IMP(!NOSTR && RET == CYAML_OK && g_k <= g.value_len, STR[g_k] == g.value[g_k])) \
E("the stored string has the default's length", IMP(!NOSTR && RET == CYAML_OK, STR[g.value_len] == '\0')) \
E("only a default within the declared limits is stored", IMP(!NOSTR && RET == CYAML_OK, LEN_OK)) \
E("a default within the declared limits is accepted", IMP(!NOSTR && LEN_OK && g.mem_fails == 0 && !(S.string.validation_cb != NULL), RET == CYAML_OK)) \
E("a pointer string gets exactly length plus terminator bytes", IMP(!NOSTR && g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g.value_len + 1)) \
E("[P10] allocation failure gives OOM", IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("an embedded member needs no allocation", IMP(!g_is_ptr, g.mem_allocs == 0)) \
E("[P10] an allocation made is always reachable from the member", IMP(g_is_ptr && g.mem_allocs != 0, g.mem_allocs == 1 && SLOT_PTR == g.mem_last)) \
E("nothing is freed", g.mem_frees == 0)
#endif
#define FN cyaml__field_scalar_apply_default
#define ARGS (const cyaml_ctx_t *ctx, const cyaml_schema_field_t *field, uint8_t *data)
#ifdef V_STRING
#define FRAME __CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *))) __CPROVER_assigns(!g_is_ptr: __CPROVER_object_whole(g_out)) __CPROVER_assigns(GHOST)
#else
#define FRAME __CPROVER_assigns(GHOST, __CPROVER_object_whole(g_slot))
#endif
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t FN ARGS
FRAME
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_st = (cyaml_state_t){ 0 };
	g_ctx.state = g_ctx.stack = &g_st;
	g_ctx.stack_idx = g_ctx.stack_max = 1;
	g_st.state = CYAML_STATE_IN_MAP_KEY;
#if defined(V_VALIDATE)
	cyaml_schema_value_t s = { 0 };
	s.type = CYAML_MAPPING;
	v_fields(&s);
	g_st.schema = &s;
	g_st.mapping.fields = g_tab;
	g_st.mapping.fields_count = (uint16_t)g_count;
	g_set = malloc(((size_t)g_count + 31) / 32 * sizeof(*g_set) + 4);
	g_ssize = v_in_u32("struct.size");
#ifdef V_NATIVE
	V_ASSUME(g_ssize < 0x100000);
#endif
	g_struct = malloc((size_t)g_ssize + 1);
	V_ASSUME(g_set != NULL && g_struct != NULL);
	g_st.mapping.fields_set = g_set;
	g_st.data = g_struct;
	g_k = v_in_u16("tracked.field");
	V_FILL(g_set, 0, ((size_t)g_count + 31) / 32 * sizeof(*g_set) + 4);
#if defined(V_INIT_TABLE)
	g_set[0] = v_in_u32("set");
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].value.flags = (enum cyaml_flag)v_in_u32("field.flags");
		g_tab[k].data_offset = v_in_u32("field.offset");
		V_ASSUME(g_tab[k].data_offset <= g_ssize);
		g.witness = g.witness || (!SET(k) && !OPT(k));
	}
#endif
	cyaml_err_t v_ret = cyaml__mapping_bitfieid_validate(&g_ctx);
#elif defined(V_APPLY)
	g_f = (cyaml_schema_field_t){ .key = "k" };
	T = (cyaml_type_e)v_in_u8("type");
	V_ASSUME(T <= CYAML__TYPE_COUNT);
	S.flags = (enum cyaml_flag)v_in_u32("flags");
	g_hasdef = v_in_bool("has.default");
	if (T == CYAML_MAPPING) { S.mapping.missing = g_hasdef ? &g_def : NULL; }
	if (T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED) {
		S.sequence.missing = g_hasdef ? &g_def : NULL;
		S.sequence.missing_count = v_in_u32("missing.count");
		S.sequence.max = v_in_u32("max");
	}
	g_f.data_offset = v_in_u8("offset");
	g_f.count_offset = v_in_u8("count.offset");
	g_f.count_size = v_in_u8("count.size");
	g_struct = malloc(64);
	V_ASSUME(g_struct != NULL);
	V_FILL(g_struct, 0, 64);
	/* members do not overlap */
	V_ASSUME(g_f.data_offset <= 24 && g_f.count_offset >= 32 && g_f.count_offset <= 56);
	g_st.data = g_struct;
	g_oldcount = CSZ_OK ? COUNT_AT : 0;
	cyaml_err_t v_ret = cyaml__field_apply_default(&g_ctx, &g_f, PLACE);
#else
	g_f = (cyaml_schema_field_t){ .key = "k" };
	uint8_t *at;
#ifdef V_STRING
	v_scalar_schema(&S, CYAML_STRING);
	S.string.min = v_in_u32("schema.min");
	S.string.max = v_in_u32("schema.max");
	S.string.validation_cb = v_in_bool("schema.cb") ? v_cb_string : NULL;
	g_nostr = v_in_bool("no.default");
	S.string.missing = g_nostr ? NULL : v_text();
	v_slot();
	g_k = v_in_u64("byte.position");
	g.mk = g_k;
	g_out_size = (size_t)S.string.max + 1;
	V_ASSUME(g_is_ptr || g_out_size <= V_STR_MAX);
	g_out = malloc(g_is_ptr ? 1 : g_out_size);
	V_ASSUME(g_out != NULL);
	V_FILL(g_out, 'o', g_is_ptr ? 1 : g_out_size);
	at = g_is_ptr ? g_slot : (uint8_t *)g_out;
#else
	v_scalar_schema(&S, CYAML_INT);
	T = (cyaml_type_e)v_in_u8("type");
	V_ASSUME(SIGNED || UNSIGNED || T == CYAML_BOOL || T == CYAML_FLOAT);
	g_missing = v_in_u64("missing");
	g_dmissing = v_in_f64("missing.d");
	V_ASSUME(g_dmissing == g_dmissing);
	switch (T) {
	case CYAML_INT: S.integer.missing = SMISS; break;
	case CYAML_UINT: S.unsigned_integer.missing = g_missing; break;
	case CYAML_BOOL: S.boolean.missing = g_missing & 1; break;
	case CYAML_FLOAT: S.floating_point.missing = g_dmissing; S.floating_point.validation_cb = v_in_bool("cb") ? v_cb_float : NULL; break;
	case CYAML_BITFIELD: S.bitfield.missing = g_missing; break;
	default: S.enumeration.missing = SMISS; break;
	}
	v_slot();
	at = g_slot;
#endif
	cyaml_err_t v_ret = cyaml__field_scalar_apply_default(&g_ctx, &g_f, at);
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
