/*
 * copy.c, function by function.
 *   V_CV    cyaml__clone_value (with pointer handling, numbers, strings)
 *   V_CM    cyaml__clone_mapping     V_CS  cyaml__clone_sequence
 *   V_PUSH  cyaml__stack_push        V_POP cyaml__stack_pop
 *   V_ENSURE cyaml__stack_ensure     V_START cyaml__clone_start
 *   V_TOP   cyaml_copy (loop contract over any number of steps)
 * Deep equality follows by induction over the data: clone_mapping and
 * clone_sequence hand every part to clone_value, in order, with its own
 * schema, place and count; clone_value copies or pushes it.
 */
#define V_UNIT_GHOSTS unsigned pushes, pops, clones, steps, freed_data, freed_copy, freed_stack; \
	const cyaml_schema_value_t *w_schema; const uint8_t *w_data; uint8_t *w_copy; uint64_t w_count; \
	int w_state; cyaml_err_t code; uint64_t seen_entry; const void *seen_field; bool step_failed, oom_copy; \
	void *stack_live; void *w_free; unsigned w_free_count; const void *w_free_schema; bool freed_stack_early; unsigned nsteps; bool blk;
#ifdef V_TOP
#define V_OWN_MEMCPY
#endif
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
static uint32_t g_n;
static uint8_t *g_src, *g_dst;     /* where the value is / goes */
static uint8_t *g_val;             /* the value itself (behind the pointer) */
static size_t g_len;
static uint64_t g_seq;             /* sequence count given */

static uint8_t g_cnt[8];
static size_t g_mk;
#ifdef V_TOP
static cyaml_err_t v_cyaml_free(const cyaml_config_t *config, const cyaml_schema_value_t *schema,
		cyaml_data_t *data, unsigned seq_count);
#define cyaml_free v_cyaml_free
#endif
#if defined(V_TOP)
/* the state stack lives in one of two places (growing may move it) */
static uint64_t g_blkA[16], g_blkB[16];
/* states that are ever entered (copy_push, copy_value) */
#define V_COPY_STATE(s) ((s) == CYAML_STATE_START || (s) == CYAML_STATE_IN_MAP_KEY || (s) == CYAML_STATE_IN_SEQUENCE)
#define v_blk(second) ((cyaml_state_t *)((second) ? g_blkB : g_blkA))
static cyaml_config_t g_cfg;
#endif
#include "copy.c"
#define V_NO_EVENTS
#include "load_env.h"

static cyaml_schema_value_t g_sch, g_ent;
static cyaml_state_t g_old_state, g_new_state;
#define T (g_sch.type)
#define IS_SEQ (T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define PTR ((g_sch.flags & CYAML_FLAG_POINTER) != 0)
#define NULL_OK ((g_sch.flags & CYAML_FLAG_POINTER_NULL) == CYAML_FLAG_POINTER_NULL)

static cyaml_err_t v_push_err(void)
{
	cyaml_err_t e = v_err("push.result");
	V_ASSUME(e == CYAML_OK || e == CYAML_ERR_OOM || e == CYAML_ERR_SEQUENCE_FIXED_COUNT ||
			e == CYAML_ERR_SEQUENCE_IN_SEQUENCE);
	return e;
}

/* ---- replaced callees ------------------------------------------------------ */
#if defined(V_CV) || defined(V_TOP)
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state,
		const cyaml_schema_value_t *schema, const cyaml_data_t *data, cyaml_data_t *copy)
{
	cyaml_err_t e = v_push_err();
	g.pushes++;
	g.w_state = state;
	g.w_schema = schema;
	g.w_data = data;
	g.w_copy = copy;
	if (e == CYAML_OK) {
#ifdef V_TOP
		V_ASSERT("[P10,P18] the first push finds an empty stack", ctx->stack == NULL && ctx->stack_idx == 0);
		ctx->stack = (void *)g_blkA;
		ctx->stack_max = 16;
		ctx->stack[0].state = state;
		ctx->state = ctx->stack;
		g.stack_live = ctx->stack;
#else
		g_new_state = (cyaml_state_t){ 0 };
		g_new_state.state = state;
		g_new_state.schema = schema;
		g_new_state.data = data;
		g_new_state.copy = copy;
		g_new_state.sequence.count_data = g_cnt;
		g_new_state.sequence.count_size = g_n;
		ctx->state = &g_new_state;
#endif
		ctx->stack_idx++;
	}
	return e;
}
#endif
#if defined(V_CV) || defined(V_CM) || defined(V_CS) || defined(V_TOP)
static cyaml_err_t cyaml__stack_pop(cyaml_ctx_t *ctx)
{
	V_ASSERT("only an existing state is left", ctx->stack_idx > 0);
	ctx->stack_idx--;
	g.pops++;
#ifdef V_CV
	ctx->state = &g_old_state;
#endif
	return CYAML_OK;
}
#endif
#if defined(V_CM) || defined(V_CS) || defined(V_START)
static cyaml_err_t cyaml__clone_value(cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema,
		const uint8_t *data, uint64_t seq_count, uint8_t *copy)
{
	V_ASSERT("the copy's own context is used", ctx->config == &g_cfg);
	g.clones++;
	g.w_schema = schema;
	g.w_data = data;
	g.w_copy = copy;
	g.w_count = seq_count;
	g.seen_entry = ctx->state->sequence.entry;
	g.seen_field = ctx->state->mapping.field;
	g.code = v_err("clone.result");
	return g.code;
}
#endif
#ifdef V_TOP
/* contract of cyaml__get_data_len (copy_len) */
static size_t cyaml__get_data_len(const cyaml_schema_value_t *schema, unsigned seq_count)
{
	V_ASSERT("[P18] the storage is sized for this data", schema == &g_sch && seq_count == g_seq);
	return g_len;
}
/* one step of the copy, whichever: any change to the stack, any outcome */
static cyaml_err_t v_step(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10,P18] no step follows a failed step", !g.step_failed);
	V_ASSERT("[P10,P18] a step has a state to work on", ctx->stack_idx >= 1 && ctx->state != NULL);
	g.steps = 1;
	cyaml_err_t e = v_err("step.result");
	g.step_failed = e != CYAML_OK;
	ctx->stack_idx = v_in_u32("step.depth");
	V_ASSUME(ctx->stack_idx >= 1);
	if (v_in_bool("step.grow")) {
		ctx->stack = (void *)g_blkB;
		g.stack_live = g_blkB;
		g.blk = true;
	}
	ctx->state = ctx->stack;
	ctx->stack[0].state = (enum cyaml_state_e)v_in_u8("step.state");
	V_ASSUME(V_COPY_STATE(ctx->stack[0].state));
#if defined(V_BOUNDED) || defined(V_NATIVE)
	if (++g.nsteps >= V_N) { ctx->stack_idx = 1; }
	if (ctx->stack_idx > V_N) { ctx->stack_idx = V_N; }
#endif
	return g.code = e;
}
static cyaml_err_t cyaml__clone_start(cyaml_ctx_t *ctx) { return v_step(ctx); }
static cyaml_err_t cyaml__clone_mapping(cyaml_ctx_t *ctx) { return v_step(ctx); }
static cyaml_err_t cyaml__clone_sequence(cyaml_ctx_t *ctx) { return v_step(ctx); }
static void cyaml__backtrace(const cyaml_ctx_t *ctx) { (void)ctx; }
/* contract of cyaml_free (u_free.c) */
#undef cyaml_free
static cyaml_err_t v_cyaml_free(const cyaml_config_t *config, const cyaml_schema_value_t *schema,
		cyaml_data_t *data, unsigned seq_count)
{
	V_ASSERT("[P10,P18] the same configuration frees what it allocated", config == &g_cfg);
	g.freed_data++;
	g.w_free = data;
	g.w_free_count = seq_count;
	g.w_free_schema = schema;
	return CYAML_OK;
}
#endif

/* ---- allocator -------------------------------------------------------------- */
static void *v_cmem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("[P10,P18] allocator gets the client's mem_ctx", ctx == g.mem_ctx);
#ifdef V_TOP
	if (size == 0) {
		if (ptr == NULL) { return NULL; }
		if (ptr == g.stack_live) { g.freed_stack++; g.freed_stack_early |= g.freed_stack > 1; }
		else if (ptr == g.mem_last && g.mem_last != NULL) { g.freed_copy++; }
		else { V_ASSERT("[P10,P18] only the copy's own blocks are freed", false); }
		return NULL;
	}
	V_ASSERT("[P10,P18] one block for the data at most", g.mem_allocs == 0);
#elif defined(V_ENSURE)
	V_ASSERT("only the stack is grown", ptr == (void *)g_ctx_stack && size != 0);
#else
	V_ASSERT("[P10,P18] only fresh storage is asked for", ptr == NULL && size != 0);
#endif
	if (v_in_bool("mem.fail")) { g.mem_fails++; return NULL; }
	V_ASSUME(size <= ((size_t)1 << 40));
	uint8_t *p = malloc(size);
	V_ASSUME(p != NULL);
	V_FILL(p, 0x55, size);
	g.mem_allocs++;
	g.mem_last = p;
	g.mem_last_size = size;
	return p;
}

#if defined(V_CV)
static size_t g_off;
#define PUSHED (T == CYAML_MAPPING || IS_SEQ)
#define ISNUM (T == CYAML_INT || T == CYAML_UINT || T == CYAML_BOOL || T == CYAML_ENUM || T == CYAML_FLOAT || \
	T == CYAML_FLAGS || T == CYAML_BITFIELD)
#define NUL (PTR && g_val == NULL)
#define WHERE (PTR ? (uint8_t *)g.mem_last : g_dst)
#define PUSH_FAILED (g.pushes != 0 && g.code != CYAML_OK)
#define LEN (T == CYAML_STRING ? g.value_len + 1 : (size_t)g_sch.data_size)
#define SLOT(p) (*(uint8_t **)(p))
#define CLAUSES(E) \
E("a NULL value is copied as NULL where that is allowed, and reported otherwise", \
	IMP(NUL && RET != CYAML_ERR_OOM && RET != CYAML_ERR_SEQUENCE_FIXED_COUNT && \
		RET != CYAML_ERR_SEQUENCE_IN_SEQUENCE, RET == (NULL_OK ? CYAML_OK : CYAML_ERR_BAD_PARAM_NULL_DATA))) \
E("a NULL value leaves nothing behind", \
	IMP(NUL, g.mem_allocs == 0 && SLOT(g_dst) == NULL && g_ctx.state == &g_old_state && g_ctx.stack_idx == 1)) \
E("[P18,P10] an allocation failure gives OOM, and leaves the place NULL", \
	IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM && SLOT(g_dst) == NULL)) \
E("a value that is not a pointer needs no allocation", IMP(!PTR, g.mem_allocs == 0 && g.mem_fails == 0)) \
E("[P18,P10] an allocation is always reachable from the copy", \
	IMP(PTR && g.mem_allocs != 0, g.mem_allocs == 1 && SLOT(g_dst) == (uint8_t *)g.mem_last)) \
E("[P18,P10] storage has the size of what is copied", IMP(PTR && g.mem_allocs != 0, g.mem_last_size == \
	(IS_SEQ ? g_off : LEN) || \
	(T == CYAML_SEQUENCE && g_seq == 0))) \
E("a value that is there is copied", IMP(!NUL && (ISNUM || T == CYAML_STRING) && g.mem_fails == 0, \
	RET == CYAML_OK && g.mem_allocs == (PTR ? 1 : 0))) \
E("every byte of the copy equals the original", \
	IMP(RET == CYAML_OK && !NUL && (ISNUM || T == CYAML_STRING) && g_mk < LEN, \
		WHERE[g_mk] == (PTR ? g_val : g_src)[g_mk])) \
E("[P18,P10] a mapping or sequence starts out with zeroed storage", \
	IMP(PTR && g.mem_allocs != 0 && PUSHED && g_mk < g.mem_last_size, ((uint8_t *)g.mem_last)[g_mk] == 0)) \
E("a mapping or sequence that is there is entered once, or the copy fails", \
	IMP(!NUL && PUSHED && g.mem_fails == 0, g.pushes == 1 && g.pops == 0 && \
		IMP(RET == CYAML_OK, g_ctx.state == &g_new_state && g_ctx.stack_idx == 2))) \
E("scalars enter nothing", IMP(!PUSHED, g.pushes == 0)) \
E("what is entered is the value's own schema", IMP(g.pushes != 0, g.w_schema == &g_sch && \
	g.w_state == (T == CYAML_MAPPING ? CYAML_STATE_IN_MAP_KEY : CYAML_STATE_IN_SEQUENCE))) \
E("what is entered is the original and its copy", IMP(RET == CYAML_OK && PUSHED && !NUL, \
	g_ctx.state->data == (PTR ? g_val : g_src) && g_ctx.state->copy == WHERE)) \
E("a sequence is entered with its count", IMP(RET == CYAML_OK && IS_SEQ && !NUL, \
	g_ctx.state->sequence.count == g_seq && g_ctx.state->sequence.entry == 0)) \
E("the copy has the original's count", IMP(RET == CYAML_OK && T == CYAML_SEQUENCE && !NUL, \
	spec_uint_at(g_cnt, g_n) == (g_n < 8 ? g_seq & (((uint64_t)1 << (8 * g_n)) - 1) : g_seq))) \
E("a failed push is reported", IMP(g.pushes != 0 && g_ctx.state == &g_old_state && g.pops == 0, RET != CYAML_OK)) \
E("a type that cannot be copied is an error", IMP(T >= CYAML_IGNORE && !NUL && g.mem_fails == 0, RET == CYAML_ERR_BAD_TYPE_IN_SCHEMA))
#define FN cyaml__clone_value
#define ARGS (cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const uint8_t *data, uint64_t seq_count, uint8_t *copy)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, g_new_state, __CPROVER_object_whole(g_cnt), __CPROVER_object_whole(g_dst))

#elif defined(V_CM)
static cyaml_schema_field_t g_field[2];
static bool g_end;
static uint64_t g_ssize;
#define FT (g_field[0].value.type)
#define CS_OK (g_field[0].count_size >= 1 && g_field[0].count_size <= 8)
#define BADCOUNT (FT == CYAML_SEQUENCE && !CS_OK)
#define IGN (!g_end && FT == CYAML_IGNORE)
#define CLONED (!g_end && !IGN && !BADCOUNT)
#define CLAUSES(E) \
E("the end of the fields ends the mapping", IMP(g_end, RET == CYAML_OK && g.pops == 1 && g.clones == 0)) \
E("fields remain in the mapping", IMP(!g_end, g.pops == 0)) \
E("every field is gone to once, in order", IMP(!g_end && !BADCOUNT, g_old_state.mapping.field == &g_field[1])) \
E("ignored fields are left out", IMP(IGN, RET == CYAML_OK && g.clones == 0)) \
E("a count of impossible size is an error", IMP(!g_end && BADCOUNT, RET != CYAML_OK && g.clones == 0)) \
E("any other field is copied, once, with its own schema", IMP(CLONED, g.clones == 1 && g.w_schema == &g_field[0].value)) \
E("a field is copied from and to its place in the structure", IMP(CLONED, \
	g.w_data == g_src + g_field[0].data_offset && g.w_copy == g_dst + g_field[0].data_offset)) \
E("a sequence field has the count the client's data holds", IMP(CLONED && FT == CYAML_SEQUENCE, \
	g.w_count == spec_uint_at(g_src + g_field[0].count_offset, g_field[0].count_size))) \
E("a fixed-length sequence field has its schema's count", IMP(CLONED && FT == CYAML_SEQUENCE_FIXED, \
	g.w_count == g_field[0].value.sequence.min)) \
E("the field has been passed when its value is copied", IMP(CLONED, g.seen_field == &g_field[1])) \
E("a missing value is fine when optional, an error otherwise", IMP(CLONED && g.code == CYAML_ERR_BAD_PARAM_NULL_DATA, \
	RET == ((g_field[0].value.flags & CYAML_FLAG_OPTIONAL) ? CYAML_OK : CYAML_ERR_MAPPING_FIELD_MISSING))) \
E("any other outcome is the outcome", IMP(CLONED && g.code != CYAML_ERR_BAD_PARAM_NULL_DATA, RET == g.code))
#define FN cyaml__clone_mapping
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST, g_old_state, g_ctx)

#elif defined(V_CS)
static uint64_t g_i;
static size_t g_stride, g_off;
#define EMORE (g_i < g_seq)
#define CLAUSES(E) \
E("after the last entry the sequence ends", IMP(!EMORE, RET == CYAML_OK && g.pops == 1 && g.clones == 0)) \
E("every entry is copied, once, with the entry schema", IMP(EMORE, g.pops == 0 && g.clones == 1 && g.w_schema == &g_ent)) \
E("entry n is copied from position n", IMP(EMORE, \
	(uintptr_t)g.w_data - (uintptr_t)g_src == g_off)) \
E("entry n is copied to the position it is copied from", IMP(EMORE, \
	(uintptr_t)g.w_copy - (uintptr_t)g_dst == (uintptr_t)g.w_data - (uintptr_t)g_src)) \
E("the next entry is next", IMP(EMORE, g_old_state.sequence.entry == g_i + 1 && g.seen_entry == g_i + 1)) \
E("a fixed-length entry has its schema's count", IMP(EMORE && g_ent.type == CYAML_SEQUENCE_FIXED, g.w_count == g_ent.sequence.max)) \
E("the outcome of the entry is the outcome", IMP(EMORE, RET == g.code))
#define FN cyaml__clone_sequence
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST, g_old_state, g_ctx)

#elif defined(V_START)
#define CLAUSES(E) \
E("the whole data is copied with the client's schema", g.clones == 1 && g.w_schema == &g_sch && \
	g.w_data == g_src && g.w_copy == g_dst && RET == g.code) \
E("a top level sequence has the count given, a fixed-length one its own", \
	IMP(IS_SEQ, g.w_count == (T == CYAML_SEQUENCE ? g_seq : g_sch.sequence.max)))
#define FN cyaml__clone_start
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST)

#elif defined(V_TOP)
static bool g_nocfg, g_nomem, g_nosch, g_noout, g_nonnull;
static cyaml_data_t *g_out;
static uint8_t *g_client;
static bool g_copied;
/* the one plain copy: the finished data into the client's storage */
static void *v_own_memcpy(void *d, const void *s, size_t n)
{
	V_ASSERT("[P18] the finished copy, all of it, goes to the client's storage",
		!g_copied && d == (void *)g_client && s == g.mem_last && n == g_len);
	g_copied = true;
	return d;
}
#define BADP (g_nocfg || g_nomem || g_nosch || (IS_SEQ != (g_seq != 0)) || g_noout || (PTR && g_nonnull))
#define CLAUSES(E) \
E("[P20] a missing configuration is reported", IMP(g_nocfg, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG)) \
E("[P20] a configuration without allocator is reported", IMP(!g_nocfg && g_nomem, RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN)) \
E("[P20] a missing schema is reported", IMP(!g_nocfg && !g_nomem && g_nosch, RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA)) \
E("[P20] a sequence count without sequence, or the other way around, is reported", \
	IMP(!g_nocfg && !g_nomem && !g_nosch && (IS_SEQ != (g_seq != 0)), RET == CYAML_ERR_BAD_PARAM_SEQ_COUNT)) \
E("[P20] a missing output is reported", \
	IMP(!g_nocfg && !g_nomem && !g_nosch && (IS_SEQ == (g_seq != 0)) && g_noout, RET == CYAML_ERR_BAD_PARAM_NULL_DATA)) \
E("[P20] an output that already points at something is reported", \
	IMP(BADP && !g_nocfg && !g_nomem && !g_nosch && (IS_SEQ == (g_seq != 0)) && !g_noout, RET == CYAML_ERR_DATA_TARGET_NON_NULL)) \
E("[P20] nothing is done when a parameter is bad", IMP(BADP, g.mem_allocs == 0 && g.mem_fails == 0 && g.pushes == 0 && \
	g.steps == 0 && g.freed_data == 0 && !g_copied && g_out == (g_nonnull ? g_client : NULL))) \
E("[P18,P10] the outcome of the last step, or of starting, is the outcome", \
	IMP(!BADP && g.steps != 0 && g.step_failed, RET == g.code)) \
E("[P18,P10] an allocation failure gives OOM", IMP(!BADP && g.mem_fails != 0, RET == CYAML_ERR_OOM && g.pushes == 0)) \
E("[P18] the copy starts at the client's data", IMP(!BADP && g.pushes != 0, g.pushes == 1 && g.w_state == CYAML_STATE_START && \
	g.w_schema == &g_sch && (PTR ? *(const uint8_t **)g.w_data == g_src : g.w_data == g_src))) \
E("[P18] data that is not a pointer gets storage of its size", IMP(!BADP && !PTR && g.mem_fails == 0, \
	g.mem_allocs == 1 && g.mem_last_size == g_len && g.w_copy == (uint8_t *)g.mem_last)) \
E("[P18,P10] on success the caller gets the copy, and only then", \
	PTR ? IMP(RET != CYAML_OK || BADP, g_noout || g_out == (g_nonnull ? g_client : NULL)) : \
		(g_copied == (RET == CYAML_OK && !BADP) && g_out == (g_nonnull ? g_client : NULL))) \
E("[P18,P10] on failure everything copied so far is freed, with the schema and count it was copied with", \
	IMP(!BADP && RET != CYAML_OK && (g.pushes != 0 || PTR), g.freed_data == 1 && g.w_free_schema == (void *)&g_sch && \
		g.w_free == g.mem_last && g.w_free_count == g_seq)) \
E("[P18,P10] on success nothing of the copy is freed", IMP(RET == CYAML_OK, g.freed_data == 0)) \
E("[P18,P10] temporary storage is freed, once", g.freed_copy == (g.mem_allocs != 0 ? 1 : 0)) \
E("[P18,P10] the state stack is freed, once", g.freed_stack == (g.stack_live != NULL ? 1 : 0)) \
E("[P18] a copy that went well succeeds", \
	IMP(!BADP && g.steps != 0 && !g.step_failed && (PTR || g_nonnull), RET == CYAML_OK))
#define FN cyaml_copy
#define ARGS (const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data, unsigned seq_count, cyaml_data_t **data_out)
#define FRAME __CPROVER_assigns(GHOST, g_out, g_copied, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB))

#elif defined(V_LEN)
#define ESTRIDE (!IS_SEQ ? (size_t)g_sch.data_size : (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : \
	g_ent.type == CYAML_SEQUENCE_FIXED ? (size_t)g_ent.data_size * g_ent.sequence.max : (size_t)g_ent.data_size)
#define CLAUSES(E) \
E("the length of a sequence is that of all its entries", \
	IMP(IS_SEQ, RET == (T == CYAML_SEQUENCE ? ESTRIDE * (unsigned)g_seq : ESTRIDE * g_sch.sequence.max))) \
E("the length of anything else is the schema's", IMP(!IS_SEQ, RET == g_sch.data_size))
#define FN cyaml__get_data_len
#define RTYPE size_t
#define ARGS (const cyaml_schema_value_t *schema, unsigned seq_count)
#define FRAME __CPROVER_assigns()

#elif defined(V_PUSH)
static cyaml_schema_field_t g_field[2];
static cyaml_state_t g_stack[2];
static cyaml_err_t g_ens;
static int g_state, g_in;
static bool g_isfix_ok;
#define SEQV (T == CYAML_SEQUENCE && g_state == CYAML_STATE_IN_SEQUENCE)
#define FIXBAD (g_state == CYAML_STATE_IN_SEQUENCE && T == CYAML_SEQUENCE_FIXED && g_sch.sequence.min != g_sch.sequence.max)
#define NEST (SEQV && g_in == CYAML_STATE_IN_SEQUENCE)
#define OKP (g_ens == CYAML_OK && !FIXBAD && !NEST)
#define CLAUSES(E) \
E("growing the stack can fail", IMP(g_ens != CYAML_OK, RET == g_ens)) \
E("a fixed-length sequence has one length", IMP(g_ens == CYAML_OK && FIXBAD, RET == CYAML_ERR_SEQUENCE_FIXED_COUNT)) \
E("a variable-length sequence cannot be an entry", IMP(g_ens == CYAML_OK && NEST, RET == CYAML_ERR_SEQUENCE_IN_SEQUENCE)) \
E("nothing is entered then", IMP(!OKP, g_ctx.stack_idx == 1 && g_ctx.state == &g_stack[0])) \
E("otherwise the state is entered, on top", IMP(OKP, RET == CYAML_OK && g_ctx.stack_idx == 2 && g_ctx.state == &g_stack[1] && \
	g_stack[1].state == g_state && g_stack[1].schema == &g_sch && g_stack[1].data == g_src && g_stack[1].copy == g_dst)) \
E("a mapping starts at its first field", IMP(OKP && g_state == CYAML_STATE_IN_MAP_KEY, g_stack[1].mapping.field == g_field)) \
E("a sequence starts at its first entry", IMP(OKP && g_state == CYAML_STATE_IN_SEQUENCE, g_stack[1].sequence.entry == 0)) \
E("the count of a sequence field goes to the mapping's copy", IMP(OKP && SEQV && g_in == CYAML_STATE_IN_MAP_KEY, \
	g_stack[1].sequence.count_data == g_val + g_field[0].count_offset && g_stack[1].sequence.count_size == g_field[0].count_size)) \
E("the count of a top level sequence is the call's", IMP(OKP && SEQV && g_in == CYAML_STATE_START, \
	g_stack[1].sequence.count_data == (uint8_t *)&g_ctx.seq_count && g_stack[1].sequence.count_size == sizeof(unsigned)))
#define FN cyaml__stack_push
#define ARGS (cyaml_ctx_t *ctx, enum cyaml_state_e state, const cyaml_schema_value_t *schema, const cyaml_data_t *data, cyaml_data_t *copy)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, __CPROVER_object_whole(g_stack))
static cyaml_err_t cyaml__stack_ensure(cyaml_ctx_t *ctx)
{
	V_ASSERT("room is made in this stack", ctx == &g_ctx);
	return g_ens;
}
#endif

#if defined(V_CBMC) && !defined(V_LEN)
#define RET __CPROVER_return_value
#ifndef RTYPE
#define RTYPE cyaml_err_t
#endif
#ifndef V_TOP
static
#endif
RTYPE FN ARGS
FRAME
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_cmem;
	g_mk = g.mk = (size_t)v_in_u64("tracked.byte");
	g_sch = (cyaml_schema_value_t){ 0 };
	g_sch.type = (cyaml_type_e)v_in_u8("schema.type");
	V_ASSUME(g_sch.type < CYAML__TYPE_COUNT);
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_sch.data_size = v_in_u32("schema.data_size");
	V_ASSUME(g_sch.data_size > 0);
	g_seq = v_in_u32("count");
	g_old_state = (cyaml_state_t){ 0 };
	g_old_state.schema = &g_sch;
	g_ctx.state = &g_old_state;
	g_ctx.stack_idx = 1;
#if defined(V_CV)
	/* counts are 1 to 8 bytes: cyaml_data_read has read it, or it is the call's own */
	g_n = v_in_u8("count.size");
	V_ASSUME(g_n >= 1 && g_n <= 8);
#ifdef V_SEQVALS
	g_sch.type = V_SEQVALS;
#endif
	if (IS_SEQ) {
		g_sch.sequence.min = v_in_u32("schema.min");
		g_sch.sequence.max = v_in_u32("schema.max");
		V_ASSUME(g_sch.sequence.max > 0);
	}
#ifdef V_SEQVALS
	g_sch.type = V_SEQVALS;
	g_off = (size_t)g_sch.data_size * (V_SEQVALS == CYAML_SEQUENCE_FIXED ? g_sch.sequence.max : g_seq);
#else
	V_ASSUME(!IS_SEQ);
#endif
	uint8_t *v;
	if (g_sch.type == CYAML_STRING) {
		v = (uint8_t *)v_text();
	} else {
		size_t n = g_sch.data_size;
#if defined(V_NATIVE) || defined(V_SMALL)
		V_ASSUME(n < 0x10000 && g_seq < 0x1000 && g_sch.sequence.max < 0x1000);
#endif
		v = malloc(n);
		V_ASSUME(v != NULL);
		V_FILL(v, 0x33, n);
		v[0] = v_in_u8("data");
	}
	if (PTR) {
		g_src = malloc(8);
		g_dst = malloc(8);
		V_ASSUME(g_src != NULL && g_dst != NULL);
		g_val = v_in_bool("null") ? NULL : v;
		*(uint8_t **)g_src = g_val;
		*(uint8_t **)g_dst = NULL;
	} else {
		size_t n = g_sch.type == CYAML_STRING ? g.value_len + 1 : g_sch.data_size;
		g_src = v;
		g_dst = malloc(n < 8 ? 8 : n);
		V_ASSUME(g_dst != NULL);
		V_FILL(g_dst, 0, n < 8 ? 8 : n);
	}
	cyaml_err_t v_ret = cyaml__clone_value(&g_ctx, &g_sch, g_src, g_seq, g_dst);
#elif defined(V_CM)
	g_ssize = v_in_u32("struct.size");
	g_src = malloc(g_ssize);
	V_ASSUME(g_src != NULL);
	V_FILL(g_src, 3, g_ssize);
	static uint8_t d;
	g_dst = &d;
	g_end = v_in_bool("end");
	g_field[0].key = g_end ? NULL : "k";
	g_field[0].value.type = (cyaml_type_e)v_in_u8("field.type");
	V_ASSUME(g_field[0].value.type < CYAML__TYPE_COUNT);
	g_field[0].value.flags = (enum cyaml_flag)v_in_u32("field.flags");
	g_field[0].data_offset = v_in_u32("field.offset");
	g_field[0].count_offset = v_in_u32("field.count_offset");
	g_field[0].count_size = v_in_u8("field.count_size");
	g_field[0].value.sequence.min = v_in_u32("field.min");
	V_ASSUME(IMP(FT == CYAML_SEQUENCE && CS_OK, (size_t)g_field[0].count_offset + g_field[0].count_size <= g_ssize));
	g_old_state.state = CYAML_STATE_IN_MAP_KEY;
	g_old_state.mapping.field = g_field;
	g_old_state.data = g_src;
	g_old_state.copy = g_dst;
	cyaml_err_t v_ret = cyaml__clone_mapping(&g_ctx);
#elif defined(V_CS)
	static uint8_t a, b;
	g_src = &a;
	g_dst = &b;
	g_i = v_in_u32("entry");
	V_ASSUME(g_i <= g_seq);
	g_ent.type = (cyaml_type_e)v_in_u8("entry.type");
	V_ASSUME(g_ent.type < CYAML__TYPE_COUNT);
	g_ent.flags = (enum cyaml_flag)v_in_u32("entry.flags");
	g_ent.data_size = v_in_u32("entry.data_size");
	g_ent.sequence.max = v_in_u32("entry.max");
	g_sch.sequence.entry = &g_ent;
#ifdef V_FIXED_ENTRY
	V_ASSUME(g_ent.type == CYAML_SEQUENCE_FIXED && g_ent.data_size <= 64 && g_ent.sequence.max <= 64 && g_i <= 64);
	g_stride = (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : (size_t)g_ent.data_size * g_ent.sequence.max;
#else
	V_ASSUME(g_ent.type != CYAML_SEQUENCE_FIXED || (g_ent.flags & CYAML_FLAG_POINTER));
	g_stride = (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : (size_t)g_ent.data_size;
#endif
	/* the sequence is in memory */
	g_off = g_stride * g_i;
	V_ASSUME(g_off < (size_t)1 << 55);
#ifdef V_NATIVE
	V_ASSUME(g_stride < 0x100000);
#endif
	g_old_state.state = CYAML_STATE_IN_SEQUENCE;
	g_old_state.sequence.entry = g_i;
	g_old_state.sequence.count = g_seq;
	g_old_state.data = g_src;
	g_old_state.copy = g_dst;
	cyaml_err_t v_ret = cyaml__clone_sequence(&g_ctx);
#elif defined(V_START)
	static uint8_t a, b;
	g_src = &a;
	g_dst = &b;
	g_sch.sequence.max = v_in_u32("schema.max");
	g_old_state.data = g_src;
	g_old_state.copy = g_dst;
	g_ctx.seq_count = (unsigned)g_seq;
	cyaml_err_t v_ret = cyaml__clone_start(&g_ctx);
#elif defined(V_TOP)
	static uint8_t a, b;
	g_src = &a;
	g_client = &b;
	g_nocfg = v_in_bool("null.config");
	g_nomem = v_in_bool("null.mem_fn");
	g_nosch = v_in_bool("null.schema");
	g_noout = v_in_bool("null.out");
	g_nonnull = v_in_bool("out.nonnull");
	if (g_nomem) { g_cfg.mem_fn = NULL; }
	g_len = (size_t)v_in_u64("data.length");
	V_ASSUME(g_len > 0);
#ifdef V_NATIVE
	V_ASSUME(g_len < 0x1000);
#endif
	g_out = g_nonnull ? g_client : NULL;
	g_copied = false;
	cyaml_err_t v_ret = cyaml_copy(g_nocfg ? NULL : &g_cfg, g_nosch ? NULL : &g_sch, g_src, (unsigned)g_seq, g_noout ? NULL : &g_out);
#elif defined(V_LEN)
	if (IS_SEQ) {
		g_sch.sequence.entry = &g_ent;
		g_sch.sequence.max = v_in_u32("schema.max");
		g_ent.type = (cyaml_type_e)v_in_u8("entry.type");
		V_ASSUME(g_ent.type < CYAML__TYPE_COUNT);
		g_ent.flags = (enum cyaml_flag)v_in_u32("entry.flags");
		g_ent.data_size = v_in_u32("entry.data_size");
		if (g_ent.type == CYAML_SEQUENCE_FIXED) { g_ent.sequence.max = v_in_u32("entry.max"); }
	}
#ifdef V_LEN_FIXED
	V_ASSUME(IS_SEQ && g_ent.type == CYAML_SEQUENCE_FIXED && g_ent.data_size <= 64 && g_ent.sequence.max <= 64 && g_seq <= 64 && g_sch.sequence.max <= 64);
#else
	V_ASSUME(IMP(IS_SEQ, g_ent.type != CYAML_SEQUENCE_FIXED));
#endif
	size_t v_ret = cyaml__get_data_len(&g_sch, (unsigned)g_seq);
#elif defined(V_PUSH)
	static uint8_t a, b, c;
	g_src = &a;
	g_dst = &b;
	g_val = &c;
	g_ens = v_in_bool("mem.fail") ? CYAML_ERR_OOM : CYAML_OK;
	g_state = v_in_u8("state");
	g_in = v_in_u8("in.state");
	V_ASSUME(g_state < CYAML_STATE__COUNT && g_in < CYAML_STATE__COUNT);
	V_ASSUME(IMP(g_state == CYAML_STATE_IN_MAP_KEY, T == CYAML_MAPPING));
	V_ASSUME(IMP(g_state == CYAML_STATE_IN_SEQUENCE, IS_SEQ));
	V_ASSUME(IMP(g_state == CYAML_STATE_IN_SEQUENCE, g_in == CYAML_STATE_START || g_in == CYAML_STATE_IN_MAP_KEY ||
		g_in == CYAML_STATE_IN_SEQUENCE));
	if (T == CYAML_MAPPING) { g_sch.mapping.fields = g_field; }
	if (IS_SEQ) { g_sch.sequence.min = v_in_u32("min"); g_sch.sequence.max = v_in_u32("max"); }
	g_field[0].count_offset = v_in_u32("count_offset");
	g_field[0].count_size = v_in_u8("count_size");
	g_stack[0].state = (enum cyaml_state_e)g_in;
	g_stack[0].copy = g_val;
	if (g_in == CYAML_STATE_IN_MAP_KEY) { g_stack[0].mapping.field = &g_field[1]; }
	g_ctx.stack = g_ctx.state = g_stack;
	g_ctx.stack_idx = 1;
	g_ctx.stack_max = 2;
	cyaml_err_t v_ret = cyaml__stack_push(&g_ctx, (enum cyaml_state_e)g_state, &g_sch, g_src, g_dst);
#endif
#if defined(V_NATIVE) || defined(V_LEN)
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
