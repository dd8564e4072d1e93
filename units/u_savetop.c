/*
 * Saving, outermost functions.
 *   V_TOP     cyaml__save (loop contracts, any number of steps)
 *   V_BUFFER  cyaml__buffer_handler
 *   V_DATA    cyaml_save_data      V_FILE  cyaml_save_file
 * Each function called is replaced by its contract (the state handlers and the
 * state stack: u_save.c, load_stack.c; libyaml and stdio: assumed).
 */
#define V_UNIT_GHOSTS \
	unsigned pushes, pops, steps, freed_stack, freed_buf, flushes, saves, deletes, inits, outs, opens, closes; bool step_failed, flush_failed, blk, \
	close_failed, open_failed, init_failed, handler_failed, deleted_late; \
	cyaml_err_t code; const void *w_schema; const uint8_t *w_data; int w_state; unsigned w_count; bool data_ok; void *stack_live; unsigned nsteps, tasks; bool last_pop_emit; bool end_pop;
#ifdef V_BUFFER
#define V_OWN_MEMCPY
#endif
#include <yaml.h>
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"

static uint64_t g_blkA[16], g_blkB[16];
#define V_SAVE_STATE(s) ((s) == CYAML_STATE_START || (s) == CYAML_STATE_IN_STREAM || (s) == CYAML_STATE_IN_DOC || (s) == CYAML_STATE_IN_MAP_KEY || (s) == CYAML_STATE_IN_SEQUENCE)
#define v_blk(second) ((cyaml_state_t *)((second) ? g_blkB : g_blkA))
static cyaml_config_t g_cfg;
static cyaml_schema_value_t g_sch;
static unsigned g_seq;
static yaml_emitter_t g_emitter;
static uint8_t g_client[8];
static bool g_nocfg, g_nomem, g_nosch, g_nodata;

#ifdef V_TOP
static int v_flush(yaml_emitter_t *em)
{
	V_ASSERT("[P16,P17] it is this output that is completed", em == &g_emitter);
	V_ASSERT("[P16,P17] the output is completed when nothing is left to write", g.steps != 0 && !g.step_failed && g.end_pop);
	g.flushes += g.flushes < 9;
	g.flush_failed = v_in_bool("flush.fail");
	em->problem = v_in_bool("emitter.problem") ? "p" : NULL;
	return !g.flush_failed;
}
#define yaml_emitter_flush v_flush
#endif
#if defined(V_DATA) || defined(V_FILE)
static yaml_emitter_t *g_em;
static yaml_write_handler_t *g_handler;
static void *g_hdata;
static int g_fileobj;
static int v_em_init(yaml_emitter_t *em)
{
	g.inits++;
	g.init_failed = v_in_bool("emitter.fail");
	*em = (yaml_emitter_t){ 0 };
	g_em = em;
	return !g.init_failed;
}
static void v_em_delete(yaml_emitter_t *em)
{
	V_ASSERT("[P17] the emitter is released once", em == g_em && g.deletes == 0 && !g.init_failed);
	g.deletes++;
}
static void v_em_set(yaml_emitter_t *em, yaml_write_handler_t *h, void *d)
{
	V_ASSERT("[P17] the output is set on the emitter", em == g_em);
	g_handler = h;
	g_hdata = d;
	g.outs++;
}
static void v_em_file(yaml_emitter_t *em, FILE *f)
{
	V_ASSERT("[P17] the output is the file", em == g_em && f == (FILE *)&g_fileobj);
	g.outs++;
}
static FILE *v_fopen(const char *p, const char *m)
{
	V_ASSERT("[P17] the file named is written", p == (const char *)g_client && m[0] == 'w' && (m[1] == 0 || m[1] == 'b' || m[1] == 'e'));
	g.opens++;
	g.open_failed = v_in_bool("open.fail");
	return g.open_failed ? NULL : (FILE *)&g_fileobj;
}
static int v_fclose(FILE *f)
{
	V_ASSERT("[P17] the file is closed once", f == (FILE *)&g_fileobj && g.closes == 0 && g.opens == 1 && !g.open_failed);
	V_ASSERT("[P17] the file is open while the emitter may write to it", g.deletes == 1);
	g.closes++;
	g.close_failed = v_in_bool("close.fail");
	return g.close_failed ? -1 : 0;
}
#define yaml_emitter_initialize v_em_init
#define yaml_emitter_delete v_em_delete
#define yaml_emitter_set_output v_em_set
#define yaml_emitter_set_output_file v_em_file
#define fopen v_fopen
#define fclose v_fclose
#endif

#include "save.c"
#define V_NO_EVENTS
#include "load_env.h"

#define PTR ((g_sch.flags & CYAML_FLAG_POINTER) != 0)

#if defined(V_TOP)
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state,
		const cyaml_schema_value_t *schema, const cyaml_data_t *data)
{
	cyaml_err_t e = v_err("push.result");
	g.pushes++;
	g.code = e;
	g.w_state = state;
	g.w_schema = schema;
	g.data_ok = *(uint8_t *const *)data == g_client;
	V_ASSERT("[P16,P17] the save knows its configuration, output and count", ctx->config == &g_cfg && ctx->emitter == &g_emitter && ctx->seq_count == g_seq);
	V_ASSERT("[P16,P17] the first push finds an empty stack", ctx->stack == NULL && ctx->stack_idx == 0 && ctx->stack_max == 0);
	/* a failing push may already have allocated the stack */
	if (e == CYAML_OK || v_in_bool("push.alloc")) {
		ctx->stack = v_blk(false);
		ctx->stack_max = 16;
		g.stack_live = ctx->stack;
	}
	if (e == CYAML_OK) {
		ctx->stack[0].state = state;
		ctx->state = ctx->stack;
		ctx->stack_idx++;
	}
	return e;
}
static cyaml_err_t cyaml__stack_pop(cyaml_ctx_t *ctx, bool emit)
{
	V_ASSERT("[P16,P17] only an existing state is left", ctx->stack_idx > 0);
	V_ASSERT("[P16,P17] ends are written only on success", IMP(emit, g.steps != 0 && !g.step_failed && ctx->stack_idx == 1));
	if (emit || ctx->stack_idx == 1) { g.end_pop = true; }
	ctx->stack_idx--;
	g.pops += g.pops < 9;
	return CYAML_OK;   /* the bottom state writes nothing (save_popev) */
}
static cyaml_err_t v_step(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P16,P17] no step follows a failed step", !g.step_failed);
	V_ASSERT("[P16,P17] a step has a state to work on", ctx->stack_idx >= 1 && ctx->state != NULL);
	g.steps = 1;
	cyaml_err_t e = v_err("step.result");
	g.step_failed = e != CYAML_OK;
	ctx->stack_idx = v_in_u32("step.depth");
	V_ASSUME(ctx->stack_idx >= 1);
	if (v_in_bool("step.grow")) {
		ctx->stack = v_blk(true);
		g.stack_live = g_blkB;
		g.blk = true;
	}
	ctx->state = ctx->stack;
	ctx->stack[0].state = (enum cyaml_state_e)v_in_u8("step.state");
	V_ASSUME(V_SAVE_STATE(ctx->stack[0].state));
#if defined(V_BOUNDED) || defined(V_NATIVE)
	if (++g.nsteps >= V_N) { ctx->stack_idx = 1; }
	if (ctx->stack_idx > V_N) { ctx->stack_idx = V_N; }
#endif
	return g.code = e;
}
#define STEP(f, s) static cyaml_err_t f(cyaml_ctx_t *ctx) \
	{ V_ASSERT("[P16] each state is handled by its own function", s); return v_step(ctx); }
#define ST ctx->state->state
STEP(cyaml__write_start, ST == CYAML_STATE_START)
STEP(cyaml__write_stream, ST == CYAML_STATE_IN_STREAM)
STEP(cyaml__write_doc, ST == CYAML_STATE_IN_DOC)
STEP(cyaml__write_mapping, ST == CYAML_STATE_IN_MAP_KEY)
STEP(cyaml__write_sequence, ST == CYAML_STATE_IN_SEQUENCE)
static void cyaml__backtrace(const cyaml_ctx_t *ctx) { (void)ctx; }
#endif

#if defined(V_DATA) || defined(V_FILE)
static char *g_buf0; static size_t g_used, g_blen;
static cyaml_err_t cyaml__save(const cyaml_config_t *config, const cyaml_schema_value_t *schema,
		const cyaml_data_t *data, unsigned seq_count, yaml_emitter_t *emitter)
{
	V_ASSERT("[P16,P17] the save is the one asked for", g.saves == 0 && config == (g_nocfg ? NULL : &g_cfg) && schema == (g_nosch ? NULL : &g_sch) &&
		data == (g_nodata ? NULL : g_client) && seq_count == g_seq && emitter == g_em);
	V_ASSERT("[P17] the output is there", g.outs == 1 && g.deletes == 0);
	g.saves++;
	g.code = v_err("save.result");
	/* [P20] bad parameters are the save's own check (save_top) */
	V_ASSUME(IMP(g_nocfg || g_nomem || g_nosch || g_nodata, g.code != CYAML_OK));
#ifdef V_DATA
	cyaml_buffer_ctx_t *b = g_hdata;
	V_ASSERT("[P17] output goes to the buffer", g_handler == cyaml__buffer_handler);
	V_ASSERT("[P17] the buffer starts empty, with the client's configuration", b->config == config && b->data == NULL && b->used == 0 && b->len == 0 && b->err == CYAML_OK);
	/* what the handler did (save_buffer) */
	if (!g_nocfg && !g_nomem && !g_nosch && !g_nodata) {
		if (v_in_bool("handler.wrote")) {
			g_buf0 = b->data = (char *)g_blkA;
			g_blen = b->len = 128;
			g_used = b->used = v_in_u8("handler.used");
			V_ASSUME(b->used <= b->len);
		}
		if (v_in_bool("handler.fail")) {
			b->err = CYAML_ERR_OOM;
			g.handler_failed = true;
			V_ASSUME(g.code != CYAML_OK);   /* the emitter fails with its handler */
		}
	}
#endif
	return g.code;
}
#endif

static char *g_bdata; static size_t g_blen2, g_bused;
static void *v_smem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("[P17] allocator gets the client's mem_ctx", ctx == g.mem_ctx);
#if defined(V_TOP)
	V_ASSERT("[P17] nothing is allocated here", size == 0);
	if (ptr != NULL) {
		V_ASSERT("[P17] only the state stack is freed, once", ptr == g.stack_live && g.freed_stack == 0);
		g.freed_stack++;
	}
	return NULL;
#elif defined(V_BUFFER)
	V_ASSERT("[P17] only the buffer is grown, to hold all output", ptr == (void *)g_bdata && size != 0);
	if (v_in_bool("mem.fail")) { g.mem_fails++; return NULL; }
	V_ASSUME(size <= ((size_t)1 << 40));
	char *p = malloc(size);
	V_ASSUME(p != NULL);
	V_FILL(p, 0x55, size);
	g.mem_allocs++;
	g.mem_last = p;
	g.mem_last_size = size;
	return p;
#else
	V_ASSERT("[P17] nothing is allocated here", size == 0);
	if (ptr != NULL) {
		V_ASSERT("[P17] only the buffer is freed, once", ptr == (void *)g_buf0 && g.freed_buf == 0);
		V_ASSERT("[P17] the buffer is there while the emitter may write to it", g.deletes == 1);
		g.freed_buf++;
	}
	return NULL;
#endif
}

#if defined(V_TOP)
#define SEQBAD ((g_sch.type == CYAML_SEQUENCE) != (g_seq != 0))
#define BADP (g_nocfg || g_nomem || g_nosch || SEQBAD || !PTR || g_nodata)
#define CLAUSES(E) \
E("[P20] a missing configuration is reported", IMP(g_nocfg, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG)) \
E("[P20] a configuration without allocator is reported", IMP(!g_nocfg && g_nomem, RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN)) \
E("[P20] a missing schema is reported", IMP(!g_nocfg && !g_nomem && g_nosch, RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA)) \
E("[P20] a sequence count without sequence, or the other way around, is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && SEQBAD && PTR && !g_nodata, RET == CYAML_ERR_BAD_PARAM_SEQ_COUNT)) \
E("[P20] a top-level value that is not a pointer is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && !SEQBAD && !PTR && !g_nodata, RET == CYAML_ERR_TOP_LEVEL_NON_PTR)) \
E("[P20] missing data is reported", IMP(!g_nocfg && !g_nomem && !g_nosch && !SEQBAD && PTR && g_nodata, RET == CYAML_ERR_BAD_PARAM_NULL_DATA)) \
E("[P20] any bad parameter is an error of its kind", IMP(BADP, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG || RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN || \
	RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA || RET == CYAML_ERR_BAD_PARAM_SEQ_COUNT || RET == CYAML_ERR_TOP_LEVEL_NON_PTR || RET == CYAML_ERR_BAD_PARAM_NULL_DATA)) \
E("[P20] nothing is done when a parameter is bad", IMP(BADP, g.pushes == 0 && g.steps == 0 && g.flushes == 0)) \
E("[P16] the save starts with the client's schema and data", IMP(!BADP, g.pushes == 1 && g.w_state == CYAML_STATE_START && g.w_schema == (const void *)&g_sch && g.data_ok)) \
E("[P16,P17] failing to start is reported", IMP(!BADP && g.steps == 0, RET != CYAML_OK && RET == g.code && g.flushes == 0)) \
E("[P16,P17] a failed step is reported", IMP(!BADP && g.step_failed, RET == g.code && g.flushes == 0)) \
E("[P16,P17] otherwise the output is completed", IMP(!BADP && g.steps != 0 && !g.step_failed, g.flushes == 1)) \
E("[P16,P17] and that decides", IMP(g.flushes != 0, RET == (g.flush_failed ? CYAML_ERR_LIBYAML_EMITTER : CYAML_OK))) \
E("[P17] the state stack is freed", g.freed_stack == (g.stack_live != NULL ? 1 : 0))
#define FN cyaml__save
#define ARGS (const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data, unsigned seq_count, yaml_emitter_t *emitter)
#define RTYPE static cyaml_err_t
#define FRAME __CPROVER_assigns(GHOST, g_emitter, __CPROVER_object_whole(g_blkA), __CPROVER_object_whole(g_blkB))

#elif defined(V_BUFFER)
static cyaml_buffer_ctx_t g_bctx;
static uint8_t *g_chunk;
static size_t g_n, g_k;
static bool g_copied;
static uint8_t g_kbyte;
static void *v_own_memcpy(void *d, const void *s, size_t n)
{
	V_ASSERT("[P17] the output is copied behind what is there", !g_copied && d == (void *)(g_bctx.data + g_bused));
	V_ASSERT("[P17] all the output is copied", s == (const void *)g_chunk && n == g_n);
	V_ASSERT("[P17] the output fits", g_bused + n <= (g.mem_allocs != 0 ? g.mem_last_size : g_blen2));
	g_copied = true;
	return d;
}
#define CLAUSES(E) \
E("[P17] failing to grow is reported, to the emitter and to the caller", IMP(g.mem_fails != 0, RET == 0 && g_bctx.err == CYAML_ERR_OOM && !g_copied)) \
E("[P17] the buffer stays owned then", IMP(g.mem_fails != 0, g_bctx.data == g_bdata && g_bctx.used == g_bused && g_bctx.len == g_blen2)) \
E("[P17] otherwise the output is added", IMP(g.mem_fails == 0, RET == 1 && g_copied && g_bctx.used == g_bused + g_n && g_bctx.err == CYAML_OK)) \
E("[P17] the buffer is the one allocated", IMP(g.mem_fails == 0, g_bctx.data == (g.mem_allocs != 0 ? (char *)g.mem_last : g_bdata) && \
	g_bctx.len <= (g.mem_allocs != 0 ? g.mem_last_size : g_blen2) && g_bctx.used <= g_bctx.len)) \
E("[P17] the configuration stays", g_bctx.config == &g_cfg)
#define FN cyaml__buffer_handler
#define ARGS (void *data, unsigned char *buffer, size_t size)
#define RTYPE static int
#define FRAME __CPROVER_assigns(GHOST, g_bctx, g_copied)

#elif defined(V_DATA)
static char *g_out; static size_t g_outlen;
static char g_orig;
#define CLAUSES(E) \
E("[P17] a failing emitter is reported", IMP(g.init_failed, RET == CYAML_ERR_LIBYAML_EMITTER_INIT && g.saves == 0 && g.deletes == 0)) \
E("[P16,P17] otherwise the save is done", IMP(!g.init_failed, g.saves == 1 && g.deletes == 1)) \
E("[P17] a buffer that could not grow is out of memory", IMP(g.handler_failed, RET == CYAML_ERR_OOM)) \
E("[P17,P16,P20] otherwise the outcome is the save's", IMP(!g.init_failed && !g.handler_failed, RET == g.code)) \
E("[P17] on success the buffer is handed over, with the number of bytes written", IMP(RET == CYAML_OK, g_out == g_buf0 && g_outlen == g_used && g.freed_buf == 0)) \
E("[P17] on failure it is freed, and the outputs are untouched", IMP(RET != CYAML_OK, g_out == &g_orig && g_outlen == 77 && g.freed_buf == (g_buf0 != NULL ? 1 : 0)))
#define FN cyaml_save_data
#define ARGS (char **output, size_t *len, const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data, unsigned seq_count)
#define RTYPE cyaml_err_t
#define FRAME __CPROVER_assigns(GHOST, g_em, g_handler, g_hdata, g_buf0, g_used, g_blen, g_out, g_outlen)

#else
#define CLAUSES(E) \
E("[P17] a failing emitter is reported", IMP(g.init_failed && !g.open_failed, RET == CYAML_ERR_LIBYAML_EMITTER_INIT && g.saves == 0 && g.deletes == 0)) \
E("[P17] a file that cannot be opened is reported", IMP(g.open_failed && !g.init_failed, RET == CYAML_ERR_FILE_OPEN && g.saves == 0)) \
E("[P16,P17] otherwise the save is done", IMP(!g.init_failed && !g.open_failed, g.saves == 1 && g.opens == 1)) \
E("[P17,P16,P20] a failed save is reported as such", IMP(g.saves != 0 && g.code != CYAML_OK, RET == g.code)) \
E("[P17] output lost when closing the file is an error", IMP(g.saves != 0 && g.code == CYAML_OK && g.close_failed, RET != CYAML_OK)) \
E("[P17,P16] otherwise saving succeeds", IMP(g.saves != 0 && g.code == CYAML_OK && !g.close_failed, RET == CYAML_OK)) \
E("[P17] an emitter made is released", g.deletes == (g.init_failed || g.inits == 0 ? 0 : 1)) \
E("[P17] a file opened is closed", g.closes == (g.opens != 0 && !g.open_failed ? 1 : 0))
#define FN cyaml_save_file
#define ARGS (const char *path, const cyaml_config_t *config, const cyaml_schema_value_t *schema, const cyaml_data_t *data, unsigned seq_count)
#define RTYPE cyaml_err_t
#define FRAME __CPROVER_assigns(GHOST, g_em, g_handler, g_hdata)
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
RTYPE FN ARGS
FRAME
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_smem;
	g_sch = (cyaml_schema_value_t){ 0 };
	g_sch.type = (cyaml_type_e)v_in_u8("schema.type");
	V_ASSUME(g_sch.type < CYAML__TYPE_COUNT);
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_seq = v_in_u32("count");
	g_nocfg = v_in_bool("null.config");
	g_nomem = v_in_bool("null.mem_fn");
	g_nosch = v_in_bool("null.schema");
	g_nodata = v_in_bool("null.data");
	if (g_nomem) { g_cfg.mem_fn = NULL; }
	const cyaml_config_t *cfg = g_nocfg ? NULL : &g_cfg;
	const cyaml_schema_value_t *sch = g_nosch ? NULL : &g_sch;
	const cyaml_data_t *data = g_nodata ? NULL : g_client;
	(void)cfg; (void)sch; (void)data;
#if defined(V_TOP)
	cyaml_err_t v_ret = cyaml__save(cfg, sch, data, g_seq, &g_emitter);
#elif defined(V_BUFFER)
	V_ASSUME(!g_nomem);
	g_bctx = (cyaml_buffer_ctx_t){ .config = &g_cfg };
	g_n = (size_t)v_in_u64("chunk.size");
	g_blen2 = (size_t)v_in_u64("buffer.len");
	g_bused = (size_t)v_in_u64("buffer.used");
	V_ASSUME(g_bused <= g_blen2);
#ifdef V_NATIVE
	V_ASSUME(g_blen2 < 0x100000 && g_n < 0x100000);
#endif
	V_ASSUME(g_blen2 < (size_t)1 << 40 && g_n < (size_t)1 << 39);
	g_copied = false;
	static uint8_t chunk[1];
	g_chunk = chunk;
	if (g_blen2 != 0) {
		g_bdata = malloc(g_blen2);
		V_ASSUME(g_bdata != NULL);
	}
	g_bctx.data = g_bdata;
	g_bctx.len = g_blen2;
	g_bctx.used = g_bused;
	int v_ret = cyaml__buffer_handler(&g_bctx, g_chunk, g_n);
#elif defined(V_DATA)
	g_out = &g_orig;
	g_buf0 = NULL;
	g_used = g_blen = 0;
	g_outlen = 77;
	cyaml_err_t v_ret = cyaml_save_data(&g_out, &g_outlen, cfg, sch, data, g_seq);
#else
	cyaml_err_t v_ret = cyaml_save_file((const char *)g_client, cfg, sch, data, g_seq);
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
