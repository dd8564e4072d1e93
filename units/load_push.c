/*
 * The load state stack: contracts on cyaml__stack_push (V_POP: cyaml__stack_pop),
 * any depth of stack, any number of schema fields.
 */
#define V_UNIT_GHOSTS unsigned ensured;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include "fields.h"
#include "load.c"
#include "load_env.h"

static uint32_t g_idx, g_max, g_new_max;
static cyaml_state_t *g_stack, *g_stack2;
static cyaml_state_t g_top_old, g_low_old;
static size_t g_low;           /* one arbitrary tracked lower entry */
static uint8_t g_data[16];

/* contract of cyaml__stack_ensure (proved in load_ensure.c): room for one more
 * entry, possibly in another place with the same entries, or no change and OOM */
static cyaml_err_t cyaml__stack_ensure(cyaml_ctx_t *ctx)
{
	V_ASSERT("the stack to grow is the load's own", ctx == &g_ctx && ctx->stack == g_stack &&
			ctx->stack_idx == g_idx && ctx->stack_max == g_max);
	g.ensured++;
	if (g_idx < g_max) {
		return CYAML_OK;
	}
	if (v_in_bool("ensure.fail")) {
		g.mem_fails++;
		return CYAML_ERR_OOM;
	}
	ctx->stack = g_stack2;
	ctx->stack_max = g_new_max;
	ctx->state = g_idx > 0 ? g_stack2 + (g_idx - 1) : NULL;
	return CYAML_OK;
}

#define STATE g_ctx.stack[g_idx]
#define IS_SEQ (schema->type == CYAML_SEQUENCE)
#define FULL (g_idx >= g_max)
#define PARENT_MAP (g_idx > 0 && g_top_old.state == CYAML_STATE_IN_MAP_KEY)
#define PARENT_SEQ (g_idx > 0 && g_top_old.state == CYAML_STATE_IN_SEQUENCE)
#define PFIELD (g_tab[g_top_old.mapping.fields_idx])
#define BAD_FIXED (st == CYAML_STATE_IN_SEQUENCE && schema->type == CYAML_SEQUENCE_FIXED && \
	schema->sequence.min != schema->sequence.max)
#define BAD_NEST (st == CYAML_STATE_IN_SEQUENCE && IS_SEQ && PARENT_SEQ)
#define SAME_ENTRY(a, b) ((a).state == (b).state && (a).schema == (b).schema && \
	(a).data == (b).data && (a).sequence.data == (b).sequence.data && \
	(a).sequence.count_data == (b).sequence.count_data && \
	(a).sequence.count == (b).sequence.count && \
	(a).sequence.count_size == (b).sequence.count_size)

static enum cyaml_state_e st;

#define CLAUSES(E) \
E("entering succeeds exactly when the schema allows it and memory lasts", \
	(RET == CYAML_OK) == (g.mem_fails == 0 && !BAD_FIXED && !BAD_NEST)) \
E("[P10] allocation failure gives OOM", IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("[P07] a fixed sequence whose min and max differ is a schema error", \
	IMP(BAD_FIXED && g.mem_fails == 0, RET == CYAML_ERR_SEQUENCE_FIXED_COUNT)) \
E("[P07] a variable length sequence directly in a sequence is a schema error", \
	IMP(BAD_NEST && g.mem_fails == 0, RET == CYAML_ERR_SEQUENCE_IN_SEQUENCE)) \
E("the new entry is on top", \
	IMP(RET == CYAML_OK, g_ctx.stack_idx == g_idx + 1 && g_ctx.state == &STATE)) \
E("the new entry describes the value entered", \
	IMP(RET == CYAML_OK, STATE.state == st && STATE.schema == schema && STATE.data == g_data)) \
E("a failed push leaves the stack as deep as it was", \
	IMP(RET != CYAML_OK, g_ctx.stack_idx == g_idx)) \
E("the current state is always the top entry", \
	IMP(g_ctx.stack_idx > 0, g_ctx.state == g_ctx.stack + (g_ctx.stack_idx - 1))) \
E("entries below are kept", \
	IMP(g_idx > 0, SAME_ENTRY(g_ctx.stack[g_low], g_low_old) && SAME_ENTRY(g_ctx.stack[g_idx - 1], g_top_old))) \
E("[P10] the stack always has room for what is on it", \
	g_ctx.stack_idx <= g_ctx.stack_max && (g_ctx.stack == g_stack || g_ctx.stack == g_stack2)) \
E("[P08] a new mapping has no field recorded as present", \
	IMP(RET == CYAML_OK && st == CYAML_STATE_IN_MAP_KEY, STATE.mapping.fields == g_tab && \
		STATE.mapping.fields_count == g_count && \
		(g_count == 0 || (g.mem_allocs == 1 && STATE.mapping.fields_set == g.mem_last && \
			g.mem_last_size * 8 >= g_count && ((uint8_t *)g.mem_last)[0] == 0 && \
			((uint8_t *)g.mem_last)[g.mem_last_size - 1] == 0 && \
			((uint8_t *)g.mem_last)[g.mk < g.mem_last_size ? g.mk : 0] == 0)))) \
E("[P07] a new sequence starts empty", \
	IMP(RET == CYAML_OK && st == CYAML_STATE_IN_SEQUENCE, STATE.sequence.count == 0 && STATE.sequence.data == NULL)) \
E("[P07] a sequence in a mapping is counted where the field says", \
	IMP(RET == CYAML_OK && st == CYAML_STATE_IN_SEQUENCE && IS_SEQ && PARENT_MAP, \
		STATE.sequence.count_data == g_top_old.data + PFIELD.count_offset && \
		STATE.sequence.count_size == PFIELD.count_size)) \
E("[P07] a top level sequence is counted in the caller's count", \
	IMP(RET == CYAML_OK && st == CYAML_STATE_IN_SEQUENCE && IS_SEQ && !PARENT_MAP, \
		STATE.sequence.count_data == (uint8_t *)&g_ctx.seq_count && \
		STATE.sequence.count_size == sizeof(g_ctx.seq_count))) \
E("[P10] only what the entry owns is allocated", \
	g.mem_frees == 0 && IMP(RET != CYAML_OK || st != CYAML_STATE_IN_MAP_KEY || g_count == 0, g.mem_allocs == 0))

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state,
		const yaml_event_t *event, const cyaml_schema_value_t *schema,
		cyaml_data_t *data)
__CPROVER_assigns(GHOST, g_ctx, g_walk)
__CPROVER_assigns(__CPROVER_object_whole(g_stack))
__CPROVER_assigns(FULL: __CPROVER_object_whole(g_stack2))
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g.mk = (size_t)v_in_u32("tracked.byte");
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	s.data_size = v_in_u32("schema.data_size");
	st = (enum cyaml_state_e)v_in_u8("state");
	V_ASSUME(st == CYAML_STATE_START || st == CYAML_STATE_IN_STREAM ||
		st == CYAML_STATE_IN_DOC || st == CYAML_STATE_IN_MAP_KEY ||
		st == CYAML_STATE_IN_SEQUENCE);

#ifdef V_MAP
	V_ASSUME(st == CYAML_STATE_IN_MAP_KEY);
#elif defined(V_SEQ)
	V_ASSUME(st == CYAML_STATE_IN_SEQUENCE);
#else
	V_ASSUME(st != CYAML_STATE_IN_MAP_KEY && st != CYAML_STATE_IN_SEQUENCE);
#endif

	/* the mapping the value may be in, also the mapping it may be */
	v_fields(&s);
	uint16_t fidx = v_in_u16("parent.field");
	V_ASSUME(fidx <= g_count);
	g_tab[fidx].count_size = v_in_u8("field.count_size");
	g_tab[fidx].count_offset = v_in_u8("field.count_offset");
	V_ASSUME(g_tab[fidx].count_offset < 8);
	if (st == CYAML_STATE_IN_MAP_KEY) {
		s.type = CYAML_MAPPING;
	} else if (st == CYAML_STATE_IN_SEQUENCE) {
		s.type = v_in_bool("schema.fixed") ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE;
		s.sequence.min = v_in_u32("schema.min");
		s.sequence.max = v_in_u32("schema.max");
	} else {
		s.type = (cyaml_type_e)v_in_u8("schema.type");
	}

	g_idx = v_in_u32("stack.depth");
	g_max = v_in_u32("stack.max");
	V_ASSUME(g_idx <= g_max && g_max <= 0x100000);
#if defined(V_BOUNDED) || defined(V_NATIVE)
	V_ASSUME(g_max <= 32);
#endif
	g_stack = malloc((size_t)g_max * sizeof(*g_stack));
	V_ASSUME(g_stack != NULL);
	g_stack2 = g_stack;
	if (FULL) {
		g_new_max = v_in_u32("stack.newmax");
		V_ASSUME(g_new_max > g_max);
#if defined(V_BOUNDED) || defined(V_NATIVE)
		V_ASSUME(g_new_max <= 64);
#endif
		g_stack2 = malloc((size_t)g_new_max * sizeof(*g_stack));
		V_ASSUME(g_stack2 != NULL);
	}
	if (g_idx > 0) {
		g_top_old = (cyaml_state_t){ 0 };
		g_top_old.state = (enum cyaml_state_e)v_in_u8("parent.state");
		V_ASSUME(g_top_old.state < CYAML_STATE__COUNT &&
				g_top_old.state != CYAML_STATE_IN_MAP_VALUE);
		/* a sequence can only be entered from where a value is expected */
		V_ASSUME(IMP(st == CYAML_STATE_IN_SEQUENCE, g_top_old.state >= CYAML_STATE_IN_DOC));
		g_top_old.data = g_data;
		if (g_top_old.state == CYAML_STATE_IN_MAP_KEY) {
			g_top_old.mapping.fields = g_tab;
			g_top_old.mapping.fields_idx = fidx;
		}
		g_low = v_in_u32("tracked.entry");
		V_ASSUME(g_low < g_idx);
		g_low_old = g_top_old;
		if (g_low != g_idx - 1) {
			g_low_old.data = g_data + 1;
			g_low_old.schema = &s;
		}
		g_stack[g_low] = g_low_old;
		g_stack[g_idx - 1] = g_top_old;
		if (FULL) {
			g_stack2[g_low] = g_low_old;
			g_stack2[g_idx - 1] = g_top_old;
		}
	} else {
		/* the bottom entry is the start state */
		V_ASSUME(st == CYAML_STATE_START);
	}
	g_ctx.stack = g_stack;
	g_ctx.stack_idx = g_idx;
	g_ctx.stack_max = g_max;
	g_ctx.state = g_idx > 0 ? g_stack + (g_idx - 1) : NULL;
	yaml_event_t event = { 0 };
	const yaml_event_t *ev = v_in_bool("event") ? &event : NULL;

	cyaml_err_t v_ret = cyaml__stack_push(&g_ctx, st, ev, &s, g_data);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
