/*
 * Loading FLAGS sequences and BITFIELD mappings: contract on cyaml__read_value,
 * any number of events, any table size.  Calls to cyaml_get_next_event go to
 * its contract (below).
 */
#define V_NAME_TABLE
#define V_UNIT_GHOSTS uint64_t acc; bool bad, done, ev_err, unexpected, expect_value; \
	size_t key; unsigned evs; cyaml_err_t ev_code;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include <yaml.h>
#ifdef V_BITFIELD
static cyaml_bitdef_t *g_tab;
#else
static cyaml_strval_t *g_tab;
#endif
static uint32_t g_count;
static size_t g_first;
static bool g_all_valid;
static bool g_strict;
static bool g_ci;
static uint32_t g_size;
static yaml_event_t *g_event;
#define V_TEXT_BUF
static char g_buf[8];
struct cyaml_ctx;
static cyaml_err_t cyaml_get_next_event(struct cyaml_ctx *ctx);
#include "load.c"
#include "load_env.h"

#define SIZE_MASK (~(uint64_t)0 >> (8 * (8 - g_size)))

/* Contract of cyaml_get_next_event: on success the current event is the next
 * one of the document; nothing else of the load context changes.  The script
 * also records what the property says the event contributes. */
static cyaml_err_t cyaml_get_next_event(cyaml_ctx_t *ctx)
{
	yaml_event_t *e = &ctx->event_ctx.event;
	V_ASSERT("no event is consumed after the closing one", !g.done);
	V_ASSERT("no event is consumed after a failure",
			!g.bad && !g.ev_err && !g.unexpected);
	if (v_in_bool("event.error")) {
		g.ev_err = true;
		g.ev_code = (cyaml_err_t)v_in_u8("event.error.code");
		V_ASSUME(g.ev_code > CYAML_OK && g.ev_code < CYAML_ERR__COUNT);
		return g.ev_code;
	}
	g.evs++;
#ifdef V_BOUNDED
	V_ASSUME(g.evs <= V_N);
#endif
	e->type = (yaml_event_type_t)v_in_u8("event.type");
	V_ASSUME(e->type > YAML_NO_EVENT && e->type <= YAML_MAPPING_END_EVENT &&
			e->type != YAML_ALIAS_EVENT);
#ifdef V_BITFIELD
	/* Well-formed mapping events: a value follows each key. */
	if (g.expect_value) {
		V_ASSUME(e->type == YAML_SCALAR_EVENT ||
			e->type == YAML_SEQUENCE_START_EVENT ||
			e->type == YAML_MAPPING_START_EVENT);
	}
#endif
	if (e->type == YAML_SCALAR_EVENT) {
		e->data.scalar.value = (yaml_char_t *)v_text_reuse();
		e->data.scalar.length = g.value_len;
		v_script_number();
#ifdef V_BITFIELD
		if (g.expect_value) {
			uint64_t mask = ~(uint64_t)0 >> (64 - g_tab[g.key].bits);
			g.expect_value = false;
			if (PRE_NUM_OK && g.num_ull <= mask) {
				g.acc |= g.num_ull << g_tab[g.key].offset;
			} else {
				g.bad = true;
			}
			return CYAML_OK;
		}
#endif
		g.r[0] = (size_t)v_in_u64("first.match.sensitive");
		g.r[1] = (size_t)v_in_u64("first.match.insensitive");
		V_ASSUME(g.r[0] <= g_count && g.r[1] <= g.r[0]);
		g_first = g.r[g_ci];
#ifdef V_BITFIELD
		if (g_first < g_count) {
			V_ASSUME(g_tab[g_first].bits >= 1);
			if ((unsigned)g_tab[g_first].bits + g_tab[g_first].offset >
					8 * (uint64_t)g_size) {
				g.bad = true;
			} else {
				g.key = g_first;
				g.expect_value = true;
			}
		} else {
			g.bad = true;
		}
#else
		if (g_first < g_count) {
			g.acc |= (uint64_t)g_tab[g_first].val;
		} else if (!g_strict && PRE_NUM_OK && g.num_ull <= SIZE_MASK) {
			g.acc |= g.num_ull;
		} else {
			g.bad = true;
		}
#endif
#ifdef V_BITFIELD
	} else if (e->type == YAML_MAPPING_END_EVENT) {
#else
	} else if (e->type == YAML_SEQUENCE_END_EVENT) {
#endif
		g.done = true;
	} else {
		g.unexpected = true;
	}
	return CYAML_OK;
}

#ifdef V_BITFIELD
 #define KIND CYAML_BITFIELD
 #define START YAML_MAPPING_START_EVENT
 #define CB (schema->bitfield.validation_cb)
 #define CBVAL g.cb_u
#else
 #define KIND CYAML_FLAGS
 #define START YAML_SEQUENCE_START_EVENT
 #define CB (schema->enumeration.validation_cb)
 #define CBVAL ((uint64_t)g.cb_i)
#endif
#define CB_SET (CB != NULL)
#define READ_OK (g.done && !g.bad && !g.ev_err && !g.unexpected)
#define STORABLE (READ_OK && SIZE_OK(g_size) && (g.acc & ~SIZE_MASK) == 0)

#define CLAUSES(E) \
E("success requires every entry to be known and representable, through to the closing event", \
	IMP(RET == CYAML_OK, STORABLE)) \
E("a collection of acceptable entries is accepted", \
	IMP(STORABLE && g.mem_fails == 0 && !CB_SET && g_all_valid, RET == CYAML_OK)) \
E("[P03,P21] the stored value is the union of exactly the entries present", \
	IMP(RET == CYAML_OK, spec_uint_at(TARGET, g_size) == g.acc)) \
E("acceptance by the client's validator is required", \
	IMP(RET == CYAML_OK && CB_SET, g.cb_calls == 1 && g.cb_ret)) \
E("the validator sees the exact value, its schema and the client context", \
	IMP(g.cb_calls != 0, g.cb_calls == 1 && CBVAL == g.acc && CB_OK_ARGS)) \
E("a validator veto is a failure", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("a validator that is not set is not called", IMP(!CB_SET, g.cb_calls == 0)) \
E("an unknown or unrepresentable entry gives INVALID_VALUE", \
	IMP(g.bad && g_all_valid && SIZE_OK(g_size), RET == CYAML_ERR_INVALID_VALUE)) \
E("an entry of the wrong kind gives UNEXPECTED_EVENT", \
	IMP(g.unexpected, RET == CYAML_ERR_UNEXPECTED_EVENT)) \
E("[P10] an error getting an event is passed on", \
	IMP(g.ev_err, RET == g.ev_code)) \
E("a pointer member gets one allocation of the declared size", \
	IMP(g_is_ptr && RET == CYAML_OK, g.mem_allocs == 1 && g.mem_last_size == g_size)) \
SCALAR_CLAUSES(E)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(
		cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema,
		uint8_t *data,
		const yaml_event_t *event)
__CPROVER_requires(schema->type == KIND && event->type == START)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
__CPROVER_assigns(!g_is_ptr && SIZE_OK(g_size): __CPROVER_object_upto(data, g_size))
__CPROVER_assigns(GHOST, g_first, g_ctx.event_ctx.event, __CPROVER_object_whole(g_buf))
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	v_scalar_schema(&s, KIND);
	g_strict = (s.flags & CYAML_FLAG_STRICT) != 0;
	g_ci = V_INSENSITIVE(&g_cfg, &s);
	g_count = v_in_u32("schema.count");
	V_ASSUME(g_count <= V_TABLE_MAX);
	g_all_valid = true;
#ifdef V_BITFIELD
	g_all_valid = v_in_bool("schema.all.valid");
	V_ASSUME(g_size <= 8);
	s.bitfield.count = g_count;
	g_tab = malloc((size_t)g_count * sizeof(*g_tab) + 1);
	V_ASSUME(g_tab != NULL);
	v_name_table(g_count);
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].name = g.names + k;
		g_tab[k].bits = v_in_u8("bitdef.bits");
		g_tab[k].offset = v_in_u8("bitdef.offset");
		V_ASSUME(g_tab[k].bits >= 1);
		V_ASSUME(IMP(g_all_valid, (unsigned)g_tab[k].bits +
				g_tab[k].offset <= 8 * (uint64_t)g_size));
	}
#endif
	s.bitfield.bitdefs = g_tab;
	s.bitfield.validation_cb = v_in_bool("schema.cb") ? v_cb_uint : NULL;
#else
	s.enumeration.count = g_count;
	g_tab = v_strvals(g_count);
	s.enumeration.strings = g_tab;
	s.enumeration.validation_cb = v_in_bool("schema.cb") ? v_cb_int : NULL;
#endif
	g_first = g_count;
	g_ctx.event_ctx.event.type = START;
	g_event = &g_ctx.event_ctx.event;
	v_slot();

	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema, g_slot,
			&g_ctx.event_ctx.event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
