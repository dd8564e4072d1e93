/*
 * The state stacks of loading, copying (V_COPY) and saving (V_SAVE): contracts on
 * cyaml__stack_ensure (default) and cyaml__stack_pop (V_POP), any depth.
 */
#define V_UNIT_GHOSTS unsigned grows; cyaml_state_t *grown; size_t grown_size; void *freed;
#include <stdint.h>
typedef struct cyaml_state cyaml_state_t;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#if defined(V_COPY)
#include "copy.c"
#elif defined(V_SAVE)
#include "save.c"
#else
#include "load.c"
#define V_LOAD
#endif
#define V_NO_EVENTS
#include "load_env.h"

static uint32_t g_idx, g_max;
static cyaml_state_t *g_stack, *g_first_state;
static cyaml_state_t g_old_entry;
static size_t g_track;           /* one arbitrary tracked entry */

static void *v_pmem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("allocator gets the client's mem_ctx", ctx == g.mem_ctx);
	if (size == 0) {
		g.freed = ptr;
		g.mem_frees += ptr != NULL;
		return NULL;
	}
	if (v_in_bool("mem.fail")) {
		g.mem_fails++;
		return NULL;
	}
	cyaml_state_t *n = malloc((size / sizeof(*n)) * sizeof(*n));
	V_ASSUME(n != NULL);
	V_ASSERT("the stack is only grown in place of itself", ptr == (void *)g_stack);
	V_ASSERT("growing keeps every entry", size / sizeof(*n) >= g_idx);
	g.grows++;
	g.grown = n;
	g.grown_size = size;
	if (g_idx > 0) {
		n[g_track] = g_old_entry;
	}
	return n;
}

#define SAME_ENTRY(a, b) ((a).state == (b).state && (a).schema == (b).schema && \
	(a).data == (b).data && (a).sequence.count == (b).sequence.count SAME_MORE(a, b))
#if defined(V_LOAD)
#define SAME_MORE(a, b) && (a).sequence.data == (b).sequence.data && \
	(a).sequence.count_data == (b).sequence.count_data && \
	(a).sequence.count_size == (b).sequence.count_size
#elif defined(V_COPY)
#define SAME_MORE(a, b) && (a).sequence.count_data == (b).sequence.count_data && (a).copy == (b).copy && \
	(a).sequence.count_size == (b).sequence.count_size && (a).sequence.entry == (b).sequence.entry
#else
#define SAME_MORE(a, b) && (a).done == (b).done && (a).sequence.entry == (b).sequence.entry
#endif
#define TOP_OK (g_ctx.state == (g_ctx.stack_idx > 0 ? g_ctx.stack + (g_ctx.stack_idx - 1) : NULL))

#ifndef V_POP
#define CLAUSES(E) \
E("there is room for another entry, or memory ran out", \
	RET == (g.mem_fails ? CYAML_ERR_OOM : CYAML_OK) && \
	IMP(RET == CYAML_OK, g_ctx.stack_idx < g_ctx.stack_max)) \
E("the depth does not change", g_ctx.stack_idx == g_idx) \
E("the current state stays the top entry", IMP(g_idx > 0, TOP_OK)) \
E("entries are kept", IMP(g_idx > 0, SAME_ENTRY(g_ctx.stack[g_track], g_old_entry))) \
E("[P12,P10,P16,P17,P18] the recorded capacity is what was allocated", \
	IMP(g.grows == 0, g_ctx.stack == g_stack && g_ctx.stack_max == g_max) && \
	IMP(g.grows != 0, g.grows == 1 && g_ctx.stack == g.grown && \
		g.grown_size / sizeof(cyaml_state_t) >= g_ctx.stack_max)) \
E("[P10,P17,P18] no memory is given up", g.mem_frees == 0) \
E("[P10,P17,P18] a failure keeps the stack", IMP(g.mem_fails != 0, g_ctx.stack == g_stack))
#else
#ifndef V_LOAD
static cyaml_err_t g_emit;
#ifdef V_SAVE
static bool g_want;
static unsigned g_emits;
static int g_emit_state;
#else
#define g_want false
#define g_emits 0
#define g_emit_state 0
#endif
#define LEFT (!g_want || g_emit == CYAML_OK)
#define CLAUSES(E) \
E("one entry is removed", IMP(LEFT, RET == CYAML_OK && g_ctx.stack_idx == g_idx - 1)) \
E("what ends with the entry is written first, if asked for", IMP(g_want, g_emits == 1 && g_emit_state == g_old_entry.state)) \
E("nothing is written unless asked for", IMP(!g_want, g_emits == 0)) \
E("if that cannot be written nothing is removed", IMP(!LEFT, RET == g_emit && g_ctx.stack_idx == g_idx)) \
E("the current state is the entry below", TOP_OK) \
E("[P10,P17,P18] the stack itself is kept", g_ctx.stack == g_stack && g_ctx.stack_max == g_max && \
	g.grows == 0 && g.mem_fails == 0 && g.mem_frees == 0)
#else
#define WAS_MAP (g_old_entry.state == CYAML_STATE_IN_MAP_KEY || g_old_entry.state == CYAML_STATE_IN_MAP_VALUE)
#define CLAUSES(E) \
E("one entry is removed", g_ctx.stack_idx == g_idx - 1) \
E("the current state is the entry below", TOP_OK) \
E("[P10] the record of fields seen goes with a mapping entry, and only that is freed", \
	IMP(WAS_MAP, g.freed == g_old_entry.mapping.fields_set && \
		g.mem_frees == (g_old_entry.mapping.fields_set != NULL)) && \
	IMP(!WAS_MAP, g.mem_frees == 0)) \
E("[P10] the stack itself is kept", g_ctx.stack == g_stack && g_ctx.stack_max == g_max && \
	g.grows == 0 && g.mem_fails == 0)
#endif
#endif

#if defined(V_SAVE) && defined(V_POP)
static cyaml_err_t cyaml__stack_pop_write_event(const cyaml_ctx_t *ctx, enum cyaml_state_e state)
{
	V_ASSERT("the end is written to this output", ctx == &g_ctx && ctx->stack_idx == g_idx);
	g_emits++;
	g_emit_state = state;
	return g_emit;
}
#define POPARGS (cyaml_ctx_t *ctx, bool emit)
#define POPFRAME __CPROVER_assigns(GHOST, g_ctx, g_emits, g_emit_state)
#else
#define POPARGS (cyaml_ctx_t *ctx)
#define POPFRAME __CPROVER_assigns(GHOST, g_ctx)
#endif

#ifdef V_CBMC
#ifndef V_POP
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__stack_ensure(cyaml_ctx_t *ctx)
__CPROVER_assigns(GHOST, g_ctx)
CLAUSES(V_ENS)
;
#undef RET
#elif !defined(V_LOAD)
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__stack_pop POPARGS
POPFRAME
CLAUSES(V_ENS)
;
#undef RET
#else
static void cyaml__stack_pop(cyaml_ctx_t *ctx)
__CPROVER_assigns(GHOST, g_ctx)
__CPROVER_assigns(__CPROVER_object_upto(g_stack + (g_idx - 1), sizeof(*g_stack)))
CLAUSES(V_ENS)
;
#endif
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_pmem;
	g_idx = v_in_u32("stack.depth");
	g_max = v_in_u32("stack.max");
	V_ASSUME(g_idx <= g_max && g_max <= 0x1000000);
#ifdef V_NATIVE
	V_ASSUME(g_max <= 0x1000);
#elif defined(V_SMALL)
	V_ASSUME(g_max <= 64);
#endif
	g_stack = NULL;
	if (g_max > 0) {
		g_stack = malloc((size_t)g_max * sizeof(*g_stack));
		V_ASSUME(g_stack != NULL);
	}
#ifdef V_POP
	V_ASSUME(g_idx > 0);
#endif
	if (g_idx > 0) {
		g_old_entry = (cyaml_state_t){ 0 };
		g_old_entry.state = (enum cyaml_state_e)v_in_u8("entry.state");
		V_ASSUME(g_old_entry.state < CYAML_STATE__COUNT);
		g_old_entry.data = (void *)&g_cfg;
#ifndef V_LOAD
		g_old_entry.sequence.count = v_in_u64("entry.count");
		g_old_entry.sequence.entry = v_in_u64("entry.entry");
#ifdef V_COPY
		g_old_entry.copy = (void *)&g_mctx_obj;
		g_old_entry.sequence.count_data = (void *)&g_cfg;
		g_old_entry.sequence.count_size = v_in_u8("entry.count_size");
#endif
#else
		if (g_old_entry.state == CYAML_STATE_IN_MAP_KEY || g_old_entry.state == CYAML_STATE_IN_MAP_VALUE) {
			g_old_entry.mapping.fields_set = v_in_bool("fields.set") ? (void *)&g_vctx_obj : NULL;
		} else if (g_old_entry.state == CYAML_STATE_IN_SEQUENCE) {
			g_old_entry.sequence.data = (void *)&g_mctx_obj;
			g_old_entry.sequence.count = v_in_u32("entry.count");
			g_old_entry.sequence.count_data = (void *)&g_cfg;
			g_old_entry.sequence.count_size = v_in_u8("entry.count_size");
		}
#endif
#ifdef V_POP
		g_track = g_idx - 1;
#else
		g_track = v_in_u32("tracked.entry");
		V_ASSUME(g_track < g_idx);
#endif
		g_stack[g_track] = g_old_entry;
	}
	g_ctx.stack = g_stack;
	g_ctx.stack_idx = g_idx;
	g_ctx.stack_max = g_max;
	g_ctx.state = g_idx > 0 ? g_stack + (g_idx - 1) : NULL;
#ifndef V_POP
	cyaml_err_t v_ret = cyaml__stack_ensure(&g_ctx);
#define RET v_ret
#elif defined(V_SAVE)
	g_emits = 0;
	g_emit = v_in_bool("emit.fail") ? CYAML_ERR_LIBYAML_EMITTER : CYAML_OK;
	g_want = v_in_bool("emit");
	cyaml_err_t v_ret = cyaml__stack_pop(&g_ctx, g_want);
#define RET v_ret
#elif defined(V_COPY)
	cyaml_err_t v_ret = cyaml__stack_pop(&g_ctx);
#define RET v_ret
#else
	cyaml__stack_pop(&g_ctx);
	cyaml_err_t v_ret = CYAML_OK;
#endif
#ifdef V_NATIVE
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
