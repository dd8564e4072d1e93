/*
 * Loading, outermost functions.
 *   V_TOP   cyaml__load (loop contracts, any number of events)
 *   V_DATA  cyaml_load_data      V_FILE  cyaml_load_file
 *   V_IGN   cyaml__consume_ignored_value (loop contract, any nesting)
 * Each function called is replaced by its contract (event source: u_events.c;
 * steps and stack: u_steps.c, load_*.c; libyaml, stdio: assumed).
 */
#define V_UNIT_GHOSTS \
	unsigned pushes, pops, evs, steps, freed_stack, freed_data, loads, inits, deletes, inputs, opens, closes, del_ev, del_rec; \
	bool step_failed, ev_failed, blk, have_ev, ev_fresh, end_pop, push_failed, open_failed, init_failed, deleted_late; \
	cyaml_err_t code; const void *w_schema, *w_event; cyaml_data_t **w_out; int w_state; void *stack_live, *root; unsigned count, nsteps; \
	uint32_t depth; bool args_ok;
#include <yaml.h>
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"

static uint64_t g_blkA[16], g_blkB[16];
#define v_blk(second) ((cyaml_state_t *)((second) ? g_blkB : g_blkA))
#define V_LOAD_STATE(s) ((s) >= CYAML_STATE_IN_STREAM && (s) < CYAML_STATE__COUNT)
static cyaml_config_t g_cfg;
static cyaml_schema_value_t g_sch;
static yaml_parser_t g_parser;
static uint8_t g_client[8];
static bool g_nocfg, g_nomem, g_nosch, g_noout, g_nocnt;
static cyaml_data_t *g_out; static uint8_t g_orig; static unsigned g_cnt;

#if defined(V_TOP)
static cyaml_err_t v_free_data(const cyaml_config_t *config, const cyaml_schema_value_t *schema, cyaml_data_t *data, unsigned seq_count)
{
	V_ASSERT("[P10,P20] partial data is freed with the load's configuration and schema, once", g.freed_data == 0 && config == &g_cfg && schema == &g_sch);
	V_ASSERT("[P10] it is the data loaded so far, with its count", data == g.root && IMP(data != NULL, seq_count == g.count));
	V_ASSERT("[P10] data is freed only when the load fails", g.step_failed || g.ev_failed || g.push_failed);
	g.freed_data++;
	return CYAML_OK;
}
#define cyaml_free v_free_data
#endif
#if defined(V_DATA) || defined(V_FILE)
static yaml_parser_t *g_pa;
static int g_fileobj;
static size_t g_inlen;
static int v_pa_init(yaml_parser_t *p)
{
	g.inits++;
	g.init_failed = v_in_bool("parser.fail");
	g_pa = p;
	return !g.init_failed;
}
static void v_pa_delete(yaml_parser_t *p)
{
	V_ASSERT("[P10,P20] the parser is released once", p == g_pa && g.deletes == 0 && g.inits == 1 && !g.init_failed);
	g.deletes++;
}
static void v_pa_string(yaml_parser_t *p, const unsigned char *s, size_t n)
{
	V_ASSERT("[P12,P20] the whole input given is parsed", p == g_pa && s == g_client && n == g_inlen && g.inits == 1);
	g.inputs++;
}
static void v_pa_file(yaml_parser_t *p, FILE *f)
{
	V_ASSERT("[P12,P20] the file is parsed", p == g_pa && f == (FILE *)&g_fileobj && g.inits == 1 && g.closes == 0);
	g.inputs++;
}
static FILE *v_fopen(const char *p, const char *m)
{
	V_ASSERT("[P12,P20] the file named is read", p == (const char *)g_client && m[0] == 'r' && (m[1] == 0 || m[1] == 'b' || m[1] == 'e'));
	g.opens++;
	g.open_failed = v_in_bool("open.fail");
	return g.open_failed ? NULL : (FILE *)&g_fileobj;
}
static int v_fclose(FILE *f)
{
	V_ASSERT("[P10,P20] the file is closed once", f == (FILE *)&g_fileobj && g.closes == 0 && g.opens == 1 && !g.open_failed);
	g.closes++;
	return v_in_bool("close.fail") ? -1 : 0;
}
#define yaml_parser_initialize v_pa_init
#define yaml_parser_delete v_pa_delete
#define yaml_parser_set_input_string v_pa_string
#define yaml_parser_set_input_file v_pa_file
#define fopen v_fopen
#define fclose v_fclose
#endif

#include "load.c"
#include "load_env.h"
#define PTR ((g_sch.flags & CYAML_FLAG_POINTER) != 0)

#if defined(V_TOP)
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state, const yaml_event_t *event,
		const cyaml_schema_value_t *schema, cyaml_data_t *data)
{
	cyaml_err_t e = v_err("push.result");
	g.pushes++;
	g.code = e;
	g.push_failed = e != CYAML_OK;
	g.w_state = state;
	g.w_schema = schema;
	g.w_out = (cyaml_data_t **)data;
	V_ASSERT("[P10,P12] the load knows its configuration and parser", ctx->config == &g_cfg && ctx->parser == &g_parser);
	V_ASSERT("[P10,P12] the first push finds an empty stack, and nothing loaded", ctx->stack == NULL && ctx->stack_idx == 0 && ctx->stack_max == 0 &&
		*g.w_out == NULL && ctx->seq_count == 0);
	V_ASSERT("[P10,P11] nothing is recorded or replayed yet", !ctx->event_ctx.have_event && !ctx->event_ctx.replay.active && ctx->event_ctx.record.complete_count == 0 &&
		ctx->event_ctx.record.progress_count == 0 && ctx->event_ctx.record.events_count == 0 && ctx->event_ctx.record.data_count == 0 &&
		ctx->event_ctx.record.stack_count == 0 && ctx->event_ctx.record.complete == NULL && ctx->event_ctx.record.progress == NULL &&
		ctx->event_ctx.record.events == NULL && ctx->event_ctx.record.data == NULL && ctx->event_ctx.record.stack == NULL);
	V_ASSERT("[P12] the start has no event", event == NULL);
	/* a failing push may already have allocated the stack */
	if (e == CYAML_OK || v_in_bool("push.alloc")) {
		ctx->stack = v_blk(false);
		ctx->stack_max = 2;
		g.stack_live = ctx->stack;
	}
	if (e == CYAML_OK) {
		ctx->stack[0].state = state;
		ctx->state = ctx->stack;
		ctx->stack_idx++;
	}
	return e;
}
static void cyaml__stack_pop(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10,P12] only an existing state is left", ctx->stack_idx > 0 && ctx->stack_idx != 0);
	g.end_pop = ctx->stack_idx == 1;
	ctx->stack_idx--;
	g.pops += g.pops < 9;
}
static cyaml_err_t cyaml_get_next_event(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10,P12] nothing follows a failure", !g.step_failed && !g.ev_failed && !g.push_failed);
	V_ASSERT("[P10,P12] each event is handled before the next is read", !g.ev_fresh);
	cyaml_err_t e = v_err("event.result");
	g.evs = 1;
	g.ev_failed = e != CYAML_OK;
	g.have_ev = v_in_bool("event.owned");
	ctx->event_ctx.have_event = g.have_ev;
	g.ev_fresh = e == CYAML_OK;
	return g.code = e;
}
static cyaml_err_t cyaml__load_event(cyaml_ctx_t *ctx, const yaml_event_t *event)
{
	V_ASSERT("[P10,P12] no step follows a failure", !g.step_failed && !g.ev_failed);
	V_ASSERT("[P10,P12] it is the event just read that is handled", g.ev_fresh && event == &ctx->event_ctx.event);
	V_ASSERT("[P10,P12] a step has a state to work on", ctx->stack_idx >= 1 && ctx->state != NULL);
	g.ev_fresh = false;
	g.steps = 1;
	cyaml_err_t e = v_err("step.result");
	g.step_failed = e != CYAML_OK;
	/* a step may load data, count entries, enter or leave states */
	if (v_in_bool("step.data")) { *g.w_out = g_client; g.root = g_client; }
	g.count = v_in_u32("step.count");
	ctx->seq_count = g.count;
	ctx->stack_idx = v_in_u32("step.depth");
	V_ASSUME(ctx->stack_idx >= 1);
	if (v_in_bool("step.grow")) {
		ctx->stack = v_blk(true);
		g.stack_live = g_blkB;
		g.blk = true;
	}
	ctx->state = ctx->stack;
	/* only the bottom state is the start state (load_push, u_steps.c) */
	uint8_t s = v_in_u8("step.state");
#if defined(V_BOUNDED) || defined(V_NATIVE)
	if (++g.nsteps >= V_N) { ctx->stack_idx = 1; }
	if (ctx->stack_idx > V_N) { ctx->stack_idx = V_N; }
#endif
	V_ASSUME(V_LOAD_STATE(s));
	ctx->stack[0].state = ctx->stack_idx == 1 ? CYAML_STATE_START : (enum cyaml_state_e)s;
	return g.code = e;
}
static void cyaml__delete_yaml_event(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10] the last event is released once", g.del_ev == 0);
	g.del_ev++;
}
static void cyaml__free_recording(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10] recordings are released once", g.del_rec == 0);
	g.del_rec++;
}
static void cyaml__backtrace(const cyaml_ctx_t *ctx)
{
	V_ASSERT("[P10,P22] the states logged still exist", IMP(ctx->stack_idx != 0, ctx->stack == g.stack_live && g.freed_stack == 0));
}
#elif defined(V_DATA) || defined(V_FILE)
static cyaml_err_t cyaml__load(const cyaml_config_t *config, const cyaml_schema_value_t *schema, cyaml_data_t **data_out,
		unsigned *seq_count_out, yaml_parser_t *parser)
{
	V_ASSERT("[P10,P12,P20] the load is the one asked for", g.loads == 0 && config == (g_nocfg ? NULL : &g_cfg) && schema == (g_nosch ? NULL : &g_sch) &&
		data_out == (g_noout ? NULL : &g_out) && seq_count_out == (g_nocnt ? NULL : &g_cnt) && parser == g_pa);
	V_ASSERT("[P12] the input is there", g.inputs == 1 && g.deletes == 0 && g.closes == 0);
	g.loads++;
	return g.code = v_err("load.result");
}
#else
static cyaml_err_t cyaml_get_next_event(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P08] no event is read beyond the ignored value", g.depth != 0);
	V_ASSERT("[P08,P10] nothing is read after a failure", !g.ev_failed);
	V_ASSERT("[P08] events are read from this load", ctx == &g_ctx);
	cyaml_err_t e = v_err("event.result");
	g.ev_failed = e != CYAML_OK;
	g.code = e;
	g.evs = 1;
	ctx->event_ctx.event = (yaml_event_t){ 0 };
	if (e == CYAML_OK) {
		int t = v_in_u8("event.type");
		V_ASSUME(t > YAML_NO_EVENT && t < CYAML_EVT__COUNT);
		ctx->event_ctx.event.type = (yaml_event_type_t)t;
#if defined(V_BOUNDED) || defined(V_NATIVE)
		if (++g.nsteps >= 8) { ctx->event_ctx.event.type = YAML_MAPPING_END_EVENT; V_ASSUME(g.depth == 1); }
#endif
		t = ctx->event_ctx.event.type;
		/* nesting is limited by memory, far below 2^32 */
		if (t == YAML_SEQUENCE_START_EVENT || t == YAML_MAPPING_START_EVENT) { V_ASSUME(g.depth < UINT32_MAX); g.depth++; }
		if (t == YAML_SEQUENCE_END_EVENT || t == YAML_MAPPING_END_EVENT) { g.depth--; }
	}
	return e;
}
#endif

static void *v_smem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("[P10] allocator gets the client's mem_ctx", ctx == g.mem_ctx);
	V_ASSERT("[P10] nothing is allocated here", size == 0);
	if (ptr != NULL) {
		V_ASSERT("[P10] only the state stack is freed, once", ptr == g.stack_live && g.freed_stack == 0);
		g.freed_stack++;
	}
	return NULL;
}

#if defined(V_TOP)
#define SEQBAD ((g_sch.type == CYAML_SEQUENCE) != !g_nocnt)
#define BADP (g_nocfg || g_nomem || g_nosch || SEQBAD || !PTR || g_noout)
#define FAILED (g.push_failed || g.ev_failed || g.step_failed)
#define CLAUSES(E) \
E("[P20] a missing configuration is reported", IMP(g_nocfg, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG)) \
E("[P20] a configuration without allocator is reported", IMP(!g_nocfg && g_nomem, RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN)) \
E("[P20] a missing schema is reported", IMP(!g_nocfg && !g_nomem && g_nosch, RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA)) \
E("[P20] a count output without sequence, or the other way around, is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && SEQBAD && PTR && !g_noout, RET == CYAML_ERR_BAD_PARAM_SEQ_COUNT)) \
E("[P20] a top-level value that is not a pointer is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && !SEQBAD && !PTR && !g_noout, RET == CYAML_ERR_TOP_LEVEL_NON_PTR)) \
E("[P20] a missing output is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && !SEQBAD && PTR && g_noout, RET == CYAML_ERR_BAD_PARAM_NULL_DATA)) \
E("[P20] any bad parameter is an error of its kind", IMP(BADP, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG || RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN || \
	RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA || RET == CYAML_ERR_BAD_PARAM_SEQ_COUNT || RET == CYAML_ERR_TOP_LEVEL_NON_PTR || RET == CYAML_ERR_BAD_PARAM_NULL_DATA)) \
E("[P20] nothing is done when a parameter is bad", IMP(BADP, g.pushes == 0 && g.evs == 0 && g.freed_data == 0)) \
E("[P12] the load starts in the start state with the client's schema", IMP(!BADP, g.pushes == 1 && g.w_state == CYAML_STATE_START && g.w_schema == (const void *)&g_sch)) \
E("[P10,P12] the first failure is the outcome", IMP(!BADP && FAILED, RET == g.code && RET != CYAML_OK)) \
E("[P10,P12] a load that met no failure succeeds, having left every state it entered", IMP(!BADP && !FAILED, RET == CYAML_OK && g.end_pop && g.steps != 0)) \
E("[P10] success hands over the loaded data", IMP(RET == CYAML_OK, g_out == g.root && g.freed_data == 0)) \
E("[P07,P10] success hands over the count", IMP(RET == CYAML_OK && !g_nocnt, g_cnt == g.count)) \
E("[P10] failure leaves the outputs untouched", IMP(RET != CYAML_OK, g_out == &g_orig && g_cnt == 77)) \
E("[P10] failure frees what was loaded", IMP(!BADP && RET != CYAML_OK && g.root != NULL, g.freed_data == 1)) \
E("[P10] the last event and the recordings are released", IMP(!BADP, g.del_ev == 1 && g.del_rec == 1)) \
E("[P10] the state stack is freed, every state left before", IMP(!BADP, g.freed_stack == (g.stack_live != NULL ? 1 : 0)) && IMP(!BADP && !g.push_failed, g.end_pop))
#define FN cyaml__load
#define RTYPE static cyaml_err_t
#define ARGS (const cyaml_config_t *config, const cyaml_schema_value_t *schema, cyaml_data_t **data_out, unsigned *seq_count_out, yaml_parser_t *parser)
#define FRAME __CPROVER_assigns(GHOST, g_out, g_cnt, g_parser, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB))
#elif defined(V_IGN)
static bool g_scalar;
#define CLAUSES(E) \
E("[P08] a scalar takes no further event", IMP(g_scalar, RET == CYAML_OK && g.evs == 0)) \
E("[P08] exactly the value with everything inside it is read", IMP(RET == CYAML_OK, g.depth == 0 && !g.ev_failed)) \
E("[P08,P10] a failing read fails", IMP(g.ev_failed, RET == g.code)) \
E("[P08] nothing else fails", IMP(!g.ev_failed, RET == CYAML_OK))
#define FN cyaml__consume_ignored_value
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, cyaml_event_t cyaml_event)
#define FRAME __CPROVER_assigns(GHOST, g_ctx)
#else
#define CLAUSES(E) \
E("[P10,P20] a failing parser is reported", IMP(g.init_failed && !g.open_failed, RET == CYAML_ERR_LIBYAML_PARSER_INIT && g.loads == 0)) \
E("[P10,P20] a file that cannot be opened is reported", IMP(g.open_failed && !g.init_failed, RET == CYAML_ERR_FILE_OPEN && g.loads == 0)) \
E("[P10,P12,P20] otherwise the load is done, and is the outcome", IMP(!g.init_failed && !g.open_failed, g.loads == 1 && RET == g.code)) \
E("[P10] the outputs are the load's own", g_out == &g_orig && g_cnt == 77) \
E("[P10] a parser made is released", g.deletes == (g.init_failed || g.inits == 0 ? 0 : 1)) \
E("[P10] a file opened is closed", g.closes == (g.opens != 0 && !g.open_failed ? 1 : 0))
#define RTYPE cyaml_err_t
#ifdef V_DATA
#define FN cyaml_load_data
#define ARGS (const uint8_t *input, size_t input_len, const cyaml_config_t *config, const cyaml_schema_value_t *schema, cyaml_data_t **data_out, unsigned *seq_count_out)
#else
#define FN cyaml_load_file
#define ARGS (const char *path, const cyaml_config_t *config, const cyaml_schema_value_t *schema, cyaml_data_t **data_out, unsigned *seq_count_out)
#endif
#define FRAME __CPROVER_assigns(GHOST, g_pa, g_out, g_cnt)
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
RTYPE FN ARGS
FRAME
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_smem;
	g_sch = (cyaml_schema_value_t){ 0 };
	g_sch.type = (cyaml_type_e)v_in_u8("schema.type");
	V_ASSUME(g_sch.type < CYAML__TYPE_COUNT);
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_nocfg = v_in_bool("null.config");
	g_nomem = v_in_bool("null.mem_fn");
	g_nosch = v_in_bool("null.schema");
	g_noout = v_in_bool("null.out");
	g_nocnt = v_in_bool("null.count");
	if (g_nomem) { g_cfg.mem_fn = NULL; }
	const cyaml_config_t *cfg = g_nocfg ? NULL : &g_cfg;
	const cyaml_schema_value_t *sch = g_nosch ? NULL : &g_sch;
	cyaml_data_t **out = g_noout ? NULL : &g_out;
	unsigned *cnt = g_nocnt ? NULL : &g_cnt;
	g_out = (cyaml_data_t *)&g_orig;
	g_cnt = 77;
	(void)cfg; (void)sch; (void)out; (void)cnt;
#if defined(V_TOP)
	cyaml_err_t v_ret = cyaml__load(cfg, sch, out, cnt, &g_parser);
#elif defined(V_IGN)
	int t = v_in_u8("kind");
	V_ASSUME(t == CYAML_EVT_SCALAR || t == CYAML_EVT_SEQ_START || t == CYAML_EVT_MAP_START);
	g_scalar = t == CYAML_EVT_SCALAR;
	g.depth = g_scalar ? 0 : 1;
	g_ctx.event_ctx.event.type = (yaml_event_type_t)t;
	cyaml_err_t v_ret = cyaml__consume_ignored_value(&g_ctx, (cyaml_event_t)t);
#elif defined(V_DATA)
	g_inlen = (size_t)v_in_u64("input.len");
	g_pa = NULL;
	cyaml_err_t v_ret = cyaml_load_data(g_client, g_inlen, cfg, sch, out, cnt);
#else
	g_pa = NULL;
	cyaml_err_t v_ret = cyaml_load_file((const char *)g_client, cfg, sch, out, cnt);
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
