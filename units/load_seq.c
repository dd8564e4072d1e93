/*
 * One more entry of a sequence (cyaml__seq_entry), or its end (V_END:
 * cyaml__seq_end): the inductive step, for any number of earlier entries.
 */
#define V_UNIT_GHOSTS unsigned reads, reallocs, pops; cyaml_err_t code; uint8_t *at; \
	const cyaml_schema_value_t *with; const void *ev; uint8_t *grown; size_t grown_size; \
	bool kept, zeroed, count_seen; uint8_t *z; size_t zn;
#define V_OWN_MEMSET
#include "common.h"
#include "libc_model.h"
static uint32_t g_n;            /* entries so far */
static struct cyaml_state *g_st;
static uint8_t *g_base;         /* where they are */
static uint8_t *g_ptr_slot;     /* the client's pointer (pointer sequences) */
static uint8_t *g_cnt;          /* the client's count */
#define V_OWN_TEXT
#include "load.c"
#include "load_env.h"

static cyaml_schema_value_t g_sch, g_ent;
static const cyaml_schema_value_t *const g_schp = &g_sch;
#define FIXED (g_schp->type == CYAML_SEQUENCE_FIXED)
#define STRIDE ((size_t)g_size)
#define USED (STRIDE * g_n)

/* Contents are not tracked byte by byte: the allocator keeps the old bytes, and
 * this unit's memset notes the one range that is written. */
#ifdef V_CBMC
static void *v_own_memset(void *p, int c, size_t n)
{
	V_ASSERT("memset target is writable", n == 0 || V_W_OK(p, n));
	V_ASSERT("only fresh storage is written, with zero, once", c == 0 && g.z == NULL && g.grown != NULL);
	g.z = p;
	g.zn = n;
	return p;
}
#endif
static void *v_pmem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("allocator gets the client's mem_ctx", ctx == g.mem_ctx);
	V_ASSERT("nothing is freed while entries are added", size > 0);
	V_ASSERT("only the sequence's own storage is grown", ptr == (void *)g_base);
	if (v_in_bool("mem.fail")) {
		g.mem_fails++;
		return NULL;
	}
	V_ASSUME(size <= ((size_t)1 << 40));
	/* arithmetic: stride * max >= stride when max >= 1 */
	V_ASSUME(IMP(FIXED && g_schp->sequence.max >= 1 && size == STRIDE * g_schp->sequence.max, size >= STRIDE));
	uint8_t *p = malloc(size);
	V_ASSUME(p != NULL);
	V_FILL(p, 0x55, size);
	g.reallocs++;
	V_ASSERT("storage never shrinks below the entries so far", IMP(g_base != NULL, size >= USED));
	g.grown = p;
	g.grown_size = size;
	return p;
}
#ifndef V_END
/* contract of cyaml__read_value (load_value.c): any outcome */
static cyaml_err_t cyaml__read_value(cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema,
		uint8_t *data, const yaml_event_t *event)
{
	V_ASSERT("the load's own context is used", ctx == &g_ctx);
	g.reads++;
	g.at = data;
	g.with = schema;
	g.ev = event;
#ifdef V_CBMC
	g.kept = g.grown == NULL || g.z == NULL || g.z >= g.grown + USED;
	g.zeroed = g.grown == NULL || (g.z != NULL && g.z <= data && data + STRIDE <= g.z + g.zn);
#else
	g.kept = g.zeroed = true;
	for (size_t k = 0; g.grown != NULL && k < STRIDE; k++) {
		g.zeroed &= data[k] == 0;
	}
	for (size_t k = 0; g.grown != NULL && k < USED; k++) {
		g.kept &= g.grown[k] == 0x55;
	}
#endif
	g.count_seen = g_st->sequence.count == g_n + 1;
	g.code = v_err("read.result");
	return g.code;
}
#else
static void cyaml__stack_pop(cyaml_ctx_t *ctx)
{
	V_ASSERT("the load's own context is used", ctx == &g_ctx);
	g.pops++;
}
#endif

#define CSIZE (g_st->sequence.count_size)
#define CSIZE_OK (CSIZE >= 1 && CSIZE <= 8)
#define FITS (FIXED || !CSIZE_OK || CSIZE == 8 || (((uint64_t)g_n + 1) >> (8 * CSIZE)) == 0)
#define TOO_MANY (g_n >= g_schp->sequence.max || !FITS)
#define NEED_MEM (g_is_ptr && (!FIXED || g_n == 0))
#define RUN (!TOO_MANY && g.mem_fails == 0 && (FIXED || CSIZE_OK))

#ifndef V_END
#define CLAUSES(E) \
E("an entry beyond the maximum, or one the count member cannot count, is rejected", \
	IMP(TOO_MANY, RET == CYAML_ERR_SEQUENCE_ENTRIES_MAX && g.reallocs == 0 && g.reads == 0)) \
E("a permitted entry is read, once", IMP(RUN, g.reads == 1)) \
E("nothing is read otherwise", IMP(!RUN, g.reads == 0)) \
E("the outcome of reading the entry is the outcome", IMP(RUN, RET == g.code)) \
E("the entry is read with the entry schema, from the event", \
	IMP(RUN, g.with == g_schp->sequence.entry && g.ev == &g_ctx.event_ctx.event)) \
E("entry n is read into position n of the sequence", \
	IMP(RUN, g.at == (NEED_MEM ? g.grown : g_base) + USED)) \
E("the sequence's own idea of its count is raised before the entry is read", \
	IMP(RUN, g.count_seen && g_st->sequence.count == g_n + 1)) \
E("the client's count is the number of entries", \
	IMP(RUN && !FIXED, spec_uint_at(g_cnt, CSIZE) == (uint64_t)g_n + 1)) \
E("[P07,P10] a rejected entry is not counted", \
	IMP(TOO_MANY || g.mem_fails != 0, g_st->sequence.count == g_n && \
		IMP(!FIXED, spec_uint_at(g_cnt, CSIZE) == g_n))) \
E("[P10] allocation failure gives OOM, and keeps what there was", \
	IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM && g.reallocs == 0 && \
		g_st->sequence.data == (g_is_ptr ? g_base : NULL) && \
		(!g_is_ptr || *(uint8_t **)g_ptr_slot == g_base))) \
E("[P07,P10] the storage covers exactly all entries up to the new one", \
	IMP(RUN && NEED_MEM, g.reallocs == 1 && g.grown_size == \
		(FIXED ? STRIDE * g_schp->sequence.max : USED + STRIDE))) \
E("[P07,P10] the storage is what the client's pointer refers to", \
	IMP(g_is_ptr && g.reallocs != 0, *(uint8_t **)g_ptr_slot == g.grown && \
		g_st->sequence.data == g.grown)) \
E("[P07,P10] the pointer is kept when nothing was allocated", \
	IMP(g_is_ptr && g.reallocs == 0, *(uint8_t **)g_ptr_slot == g_base)) \
E("[P07,P10] no storage is allocated when none is needed", IMP(!NEED_MEM, g.reallocs == 0)) \
E("earlier entries are kept", IMP(RUN, g.kept)) \
E("[P07,P10] a new entry in fresh storage starts out zero", IMP(RUN, g.zeroed)) \
E("the place and schema of the sequence are kept", \
	g_st->schema == g_schp && g_st->data == (g_is_ptr ? g_ptr_slot : g_base) && \
	g_st->state == CYAML_STATE_IN_SEQUENCE && g_st->sequence.count_data == g_cnt)
#else
#define CB_OK_ARGS2 (g.cb_schema == g_schp && g.cb_ctx == (void *)&g_vctx_obj)
#define TOO_FEW (g_n < g_schp->sequence.min)
#define HAS_CB (g_schp->sequence.validation_cb != NULL)
#define CLAUSES(E) \
E("a sequence with fewer entries than the minimum is rejected", \
	IMP(TOO_FEW, RET == CYAML_ERR_SEQUENCE_ENTRIES_MIN && g.cb_calls == 0)) \
E("a complete sequence is validated once, as a whole", \
	IMP(!TOO_FEW && HAS_CB, g.cb_calls == 1 && CB_OK_ARGS2 && \
		g.cb_ptr == (const void *)g_base && g.cb_count == g_n)) \
E("what the validator rejects is rejected", \
	IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE)) \
E("any other sequence is complete", \
	IMP(!TOO_FEW && (!HAS_CB || g.cb_ret), RET == CYAML_OK)) \
E("[P07,P12] a completed sequence is left, others are not", g.pops == (RET == CYAML_OK ? 1 : 0)) \
E("[P07,P10] nothing is allocated", g.reallocs == 0 && g.mem_fails == 0)
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
#ifndef V_END
static cyaml_err_t cyaml__seq_entry(cyaml_ctx_t *ctx, const yaml_event_t *event)
__CPROVER_assigns(GHOST, __CPROVER_object_whole(g_st), __CPROVER_object_whole(g_ptr_slot), __CPROVER_object_whole(g_cnt))
#else
static cyaml_err_t cyaml__seq_end(cyaml_ctx_t *ctx, const yaml_event_t *event)
__CPROVER_assigns(GHOST)
#endif
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_pmem;
	g.mk = (size_t)v_in_u32("tracked.byte");
	g_sch = (cyaml_schema_value_t){ 0 };
#define s g_sch
	s.type = v_in_bool("schema.fixed") ? CYAML_SEQUENCE_FIXED : CYAML_SEQUENCE;
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	s.data_size = g_size = v_in_u32("schema.data_size");
	V_ASSUME(g_size > 0);
#ifdef V_NATIVE
	V_ASSUME(g_size < 0x100000);
#endif
	s.sequence.min = v_in_u32("schema.min");
	s.sequence.max = v_in_u32("schema.max");
	s.sequence.entry = &g_ent;
	g_is_ptr = (s.flags & CYAML_FLAG_POINTER) != 0;
#ifdef V_END
	s.sequence.validation_cb = v_in_bool("schema.cb") ? v_cb_sequence : NULL;
#endif
	g_n = v_in_u32("entries");
	V_ASSUME(g_n <= s.sequence.max);
#ifdef X1
	V_ASSUME(X1);
#endif
	/* a fixed sequence is only entered when min and max agree */
	V_ASSUME(IMP(FIXED, s.sequence.min == s.sequence.max));

	g_st = malloc(sizeof(*g_st));
	g_ptr_slot = malloc(8);
	g_cnt = malloc(8);
	V_ASSUME(g_st != NULL && g_ptr_slot != NULL && g_cnt != NULL);
	*g_st = (cyaml_state_t){ 0 };
	g_st->state = CYAML_STATE_IN_SEQUENCE;
	g_st->schema = &s;
	g_st->sequence.count = g_n;
	g_st->sequence.count_data = g_cnt;
	CSIZE = v_in_u8("count.size");
	/* cyaml__stack_push has already written a zero count of this size */
	V_ASSUME(IMP(!FIXED, CSIZE_OK));
	V_ASSUME(IMP(CSIZE_OK && CSIZE < 8 && !FIXED, ((uint64_t)g_n >> (8 * CSIZE)) == 0));
	*(uint64_t *)g_cnt = g_n;

	/* storage so far: all entries for an embedded sequence, exactly what was
	 * loaded for a pointer */
#ifdef V_END
	size_t have = 16;
#undef USED
#define USED 16
#else
	size_t used = USED;
	size_t have = used;
	if (!(g_is_ptr && !FIXED)) {
		/* room for `max` entries: at least one more when n < max */
		have = (size_t)v_in_u64("room");
		V_ASSUME(have >= used && IMP(g_n < s.sequence.max, have >= used + STRIDE));
	}
#endif
	g_base = NULL;
	if (!g_is_ptr || g_n > 0) {
		V_ASSUME(have <= ((size_t)1 << 40));
#if defined(V_NATIVE) || defined(V_SMALL)
		V_ASSUME(have <= 0x1000000);
#endif
		g_base = malloc(have);
		V_ASSUME(g_base != NULL);
	}
	if (g_is_ptr) {
		*(uint8_t **)g_ptr_slot = g_base;
		g_st->sequence.data = g_base;
		g_st->data = g_ptr_slot;
	} else {
		g_st->data = g_base;
	}
	g_ctx.state = g_ctx.stack = g_st;
	g_ctx.stack_idx = g_ctx.stack_max = 1;
	g_ctx.event_ctx.event = (yaml_event_t){ 0 };
#ifndef V_END
	cyaml_err_t v_ret = cyaml__seq_entry(&g_ctx, &g_ctx.event_ctx.event);
#else
	cyaml_err_t v_ret = cyaml__seq_end(&g_ctx, &g_ctx.event_ctx.event);
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
