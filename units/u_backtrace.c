/*
 * cyaml__backtrace of load.c (V_LOAD), save.c (V_SAVE), copy.c (V_COPY): what
 * is logged when an operation fails, over a state stack of any depth.  Each
 * state is given its (arbitrary, valid) contents when the walk reaches it.
 * Field tables have up to two fields and their end: a state's field is the
 * first, a later one, or the end.
 */
#define V_UNIT_GHOSTS unsigned seen;
#define V_LOG_TEXTS
#define V_OWN_CASECMP
#include "common.h"
#include "libc_model.h"
static cyaml_config_t g_cfg;
static cyaml_schema_value_t g_sch;
static cyaml_schema_field_t g_tab[3];
static uint32_t g_count, g_depth, g_k;
static uint32_t g_at;     /* the state the walk is at */
static void *g_stack;
static void v_bt(void *stack, uint32_t idx);
#ifdef V_CBMC
#define cyaml_state __attribute__((aligned(64))) cyaml_state
#endif
#ifdef V_LOAD
#include "load.c"
#elif defined(V_SAVE)
#include "save.c"
#else
#include "copy.c"
#endif
static void v_state(cyaml_state_t *s, uint32_t k)
{
	s->state = (enum cyaml_state_e)v_in_u8("state");
	V_ASSUME(s->state < CYAML_STATE__COUNT);
	s->schema = &g_sch;
	if (s->state == CYAML_STATE_IN_MAP_KEY || s->state == CYAML_STATE_IN_MAP_VALUE) {
		/* the tracked field, the one before it, and the end have known keys */
#ifdef V_LOAD
		s->mapping.fields = g_tab;
		s->mapping.fields_count = (uint16_t)g_count;
		s->mapping.fields_idx = v_in_bool("field.none") ? CYAML_FIELDS_IDX_NONE : (uint16_t)k;
		V_ASSUME(s->mapping.fields_idx == CYAML_FIELDS_IDX_NONE || k < g_count);
#else
		s->mapping.field = g_tab + k;
#endif
		if (k > 0) { g_tab[k - 1].key = "a"; }
		g_tab[k].key = k < g_count ? "b" : NULL;
	}
}
static void v_bt(void *stack, uint32_t idx)
{
	V_ASSERT("[P22] the walk stays inside the state stack", idx < g_depth && stack == g_stack);
	g.seen = 1;
	uint32_t k = v_in_u32("field");
	V_ASSUME(k <= g_count);
	v_state((cyaml_state_t *)g_stack + idx, k);
}
void harness(void)
{
	cyaml_ctx_t ctx;
	memset(&ctx, 0, sizeof(ctx));
	memset(&g_sch, 0, sizeof(g_sch));
	ctx.config = &g_cfg;
	g_count = v_in_u32("fields");
	g_depth = v_in_u32("depth");
	g.seen = 0;
	g_sch.type = CYAML_MAPPING;
#if defined(V_BOUNDED) || defined(V_NATIVE)
	V_ASSUME(g_depth <= 3);
#else
	V_ASSUME(g_depth <= 0xffff);
#endif
	V_ASSUME(g_count <= 2);
	g_stack = malloc((size_t)g_depth * sizeof(cyaml_state_t));
	V_ASSUME((g_stack != NULL || g_depth == 0));
	g_sch.mapping.fields = g_tab;
	ctx.stack = g_stack;
	ctx.stack_idx = g_depth;
#if defined(V_BOUNDED) || defined(V_NATIVE)
	uint32_t k = v_in_u32("field");
	V_ASSUME(k <= g_count);
	for (uint32_t i = 1; i < 3; i++) { if (i < g_depth) { v_state((cyaml_state_t *)g_stack + i, k); } }
	for (uint32_t i = 0; i < 3; i++) { if (i <= g_count) { g_tab[i].key = i < g_count ? "a" : NULL; } }
#endif
	cyaml__backtrace(&ctx);
	V_ASSERT("[P22] the backtrace leaves the states where they are", ctx.stack == g_stack && ctx.stack_idx == g_depth);
}
