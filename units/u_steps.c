/*
 * The steps of the load state machine.
 *   V_SSTART/V_DSTART/V_SEND/V_DEND/V_ROOT/V_MAPVAL  one handler each
 *   V_MAPEND    cyaml__map_end
 *   V_DISPATCH  cyaml__load_event: which step an event takes in which state
 */
#define V_UNIT_GHOSTS unsigned pushes, pops, reads, steps, checks; cyaml_err_t code; int w_state; const void *w_event; \
	const cyaml_schema_value_t *w_schema; const uint8_t *w_data; int seen_state, step; size_t seen_line; bool cb_after;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include "load.c"
#include "load_env.h"

static cyaml_schema_value_t g_sch;
static cyaml_schema_field_t g_field[3];
static cyaml_state_t g_st;
static uint8_t g_data[8];
static yaml_event_t g_ev;
static uint32_t g_docs;
static unsigned g_idx;

#if defined(V_SSTART) || defined(V_DSTART)
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state, const yaml_event_t *event,
		const cyaml_schema_value_t *schema, cyaml_data_t *data)
{
	V_ASSERT("[P12,P08,P09] this load's state is used", ctx == &g_ctx);
	g.pushes++;
	g.w_state = state;
	g.w_event = event;
	g.w_schema = schema;
	g.w_data = data;
	g.seen_state = (int)g_st.stream.doc_count;
	return g.code = v_err("push.result");
}
#endif
#if defined(V_DSTART) || defined(V_SEND) || defined(V_DEND) || defined(V_MAPEND)
static void cyaml__stack_pop(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P12,P08,P09] this load's state is left", ctx == &g_ctx);
	g.pops++;
}
#endif
#if defined(V_ROOT) || defined(V_MAPVAL)
static cyaml_err_t cyaml__read_value(cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, uint8_t *data, const yaml_event_t *event)
{
	V_ASSERT("[P12,P08,P09] this load's state is used", ctx == &g_ctx && ctx->state == &g_st);
	g.reads++;
	g.w_event = event;
	g.w_schema = schema;
	g.w_data = data;
	g.seen_state = g_st.state;
	g.seen_line = g_st.line;
	return g.code = v_err("read.result");
}
#endif
#if defined(V_MAPEND)
static cyaml_err_t cyaml__mapping_bitfieid_validate(const cyaml_ctx_t *ctx)
{
	V_ASSERT("[P09] this load's mapping is checked", ctx == &g_ctx);
	V_ASSERT("[P09] the fields are checked before the client's validator, and before leaving", g.cb_calls == 0 && g.pops == 0);
	g.checks++;
	return g.code = v_err("check.result");
}
#endif
#if defined(V_DISPATCH)
#define STEP(n, f) static cyaml_err_t f(cyaml_ctx_t *ctx, const yaml_event_t *event) \
{ V_ASSERT("[P12] a step works on this load and this event", ctx == &g_ctx && event == &g_ev); g.steps++; g.step = n; return g.code = v_err("step.result"); }
STEP(1, cyaml__stream_start) STEP(2, cyaml__doc_start) STEP(3, cyaml__stream_end) STEP(4, cyaml__doc_root_value) STEP(5, cyaml__doc_end)
STEP(6, cyaml__map_key) STEP(7, cyaml__map_end) STEP(8, cyaml__map_value) STEP(9, cyaml__seq_entry) STEP(10, cyaml__seq_end)
/* the documented automaton */
static int v_spec_step(int s, int e)
{
	bool val = e == YAML_SCALAR_EVENT || e == YAML_SEQUENCE_START_EVENT || e == YAML_MAPPING_START_EVENT;
	return s == CYAML_STATE_START ? (e == YAML_STREAM_START_EVENT ? 1 : 0) :
		s == CYAML_STATE_IN_STREAM ? (e == YAML_DOCUMENT_START_EVENT ? 2 : e == YAML_STREAM_END_EVENT ? 3 : 0) :
		s == CYAML_STATE_IN_DOC ? (val ? 4 : e == YAML_DOCUMENT_END_EVENT ? 5 : 0) :
		s == CYAML_STATE_IN_MAP_KEY ? (e == YAML_SCALAR_EVENT ? 6 : e == YAML_MAPPING_END_EVENT ? 7 : 0) :
		s == CYAML_STATE_IN_MAP_VALUE ? (val ? 8 : 0) :
		s == CYAML_STATE_IN_SEQUENCE ? (val ? 9 : e == YAML_SEQUENCE_END_EVENT ? 10 : 0) : 0;
}
static int g_spec;
#endif

#if defined(V_SSTART)
#define FN cyaml__stream_start
#define CLAUSES(E) \
E("the stream is entered, with the client's schema and data", RET == g.code && g.pushes == 1 && g.w_state == CYAML_STATE_IN_STREAM && \
	g.w_schema == &g_sch && g.w_data == g_data && g.w_event == (const void *)&g_ev)
#elif defined(V_DSTART)
#define FN cyaml__doc_start
#define CLAUSES(E) \
E("the first document is entered, with the client's schema and data", IMP(g_docs == 0, RET == g.code && g.pushes == 1 && g.pops == 0 && \
	g.w_state == CYAML_STATE_IN_DOC && g.w_schema == &g_sch && g.w_data == g_data && g.w_event == (const void *)&g_ev)) \
E("it is counted before it is entered", IMP(g_docs == 0, g.seen_state == 1)) \
E("a second document is not entered, and ends the load", IMP(g_docs == 1, RET == CYAML_OK && g.pushes == 0 && g.pops == 1))
#elif defined(V_SEND) || defined(V_DEND)
#ifdef V_SEND
#define FN cyaml__stream_end
#else
#define FN cyaml__doc_end
#endif
#define CLAUSES(E) \
E("exactly this state is left", RET == CYAML_OK && g.pops == 1)
#elif defined(V_ROOT)
#define FN cyaml__doc_root_value
#define CLAUSES(E) \
E("the root value is read once, with the client's schema and data", RET == g.code && g.reads == 1 && g.w_schema == &g_sch && \
	g.w_data == g_data && g.w_event == (const void *)&g_ev)
#elif defined(V_MAPVAL)
#define FN cyaml__map_value
#define CLAUSES(E) \
E("the value is read once, into the field its key named", RET == g.code && g.reads == 1 && g.w_event == (const void *)&g_ev && \
	g.w_schema == &g_field[g_idx].value && g.w_data == g_data + g_field[g_idx].data_offset) \
E("a key is expected next", g_st.state == CYAML_STATE_IN_MAP_KEY && g.seen_state == CYAML_STATE_IN_MAP_KEY) \
E("[P22] positions are kept for the log", g_st.line == g_ev.start_mark.line && g_st.column == g_ev.start_mark.column)
#elif defined(V_MAPEND)
#define FN cyaml__map_end
#define HAS_CB (g_sch.mapping.validation_cb != NULL)
#define CLAUSES(E) \
E("the fields are checked once", g.checks == 1) \
E("a failed check fails the load", IMP(g.code != CYAML_OK, RET == g.code && g.cb_calls == 0 && g.pops == 0)) \
E("then the client's validator is asked once, about this mapping's data", IMP(g.code == CYAML_OK, g.cb_calls == (HAS_CB ? 1 : 0)) && \
	IMP(g.cb_calls != 0, g.cb_schema == &g_sch && g.cb_ctx == (void *)&g_vctx_obj && g.cb_ptr == (const void *)g_data)) \
E("its rejection fails the load", IMP(g.cb_calls != 0 && !g.cb_ret, RET == CYAML_ERR_INVALID_VALUE && g.pops == 0)) \
E("[P09,P12] otherwise the mapping is left", IMP(g.code == CYAML_OK && IMP(g.cb_calls != 0, g.cb_ret), RET == CYAML_OK && g.pops == 1))
#else
#define FN cyaml__load_event
#define CLAUSES(E) \
E("every event takes the step the documented automaton gives it", IMP(g_spec != 0, g.steps == 1 && g.step == g_spec && RET == g.code)) \
E("an event impossible in this state is rejected, with nothing done", IMP(g_spec == 0, g.steps == 0 && RET != CYAML_OK))
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t FN(cyaml_ctx_t *ctx, const yaml_event_t *event)
__CPROVER_assigns(GHOST, g_st, g_ctx)
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_sch = (cyaml_schema_value_t){ 0 };
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_st = (cyaml_state_t){ 0 };
	g_st.schema = &g_sch;
	g_st.data = g_data;
	g_ev = (yaml_event_t){ 0 };
	g_ev.type = (yaml_event_type_t)v_in_u8("event.type");
	V_ASSUME(g_ev.type < CYAML_EVT__COUNT);
	g_ev.start_mark.line = (size_t)v_in_u64("line");
	g_ev.start_mark.column = (size_t)v_in_u64("column");
	g_ctx.state = &g_st;
	g_ctx.stack = &g_st;
	g_ctx.stack_idx = g_ctx.stack_max = 1;
#if defined(V_DSTART)
	g_docs = v_in_bool("docs");
	g_st.state = CYAML_STATE_IN_STREAM;
	g_st.stream.doc_count = g_docs;
#elif defined(V_MAPVAL)
	g_sch.type = CYAML_MAPPING;
	g_sch.mapping.fields = g_field;
	g_idx = v_in_u8("field");
	V_ASSUME(g_idx < 3);
	for (unsigned k = 0; k < 3; k++) {
		g_field[k] = (cyaml_schema_field_t){ .key = "k" };
		g_field[k].data_offset = v_in_u8("offset");
		V_ASSUME(g_field[k].data_offset < 8);
	}
	g_st.state = CYAML_STATE_IN_MAP_VALUE;
	g_st.mapping.fields = g_field;
	g_st.mapping.fields_count = 3;
	g_st.mapping.fields_idx = (uint16_t)g_idx;
#elif defined(V_MAPEND)
	g_sch.type = CYAML_MAPPING;
	g_st.state = CYAML_STATE_IN_MAP_KEY;
	g_sch.mapping.validation_cb = v_in_bool("has.cb") ? v_cb_mapping : NULL;
#elif defined(V_DISPATCH)
	g_st.state = (enum cyaml_state_e)v_in_u8("state");
	V_ASSUME(g_st.state < CYAML_STATE__COUNT);
	g_spec = v_spec_step(g_st.state, g_ev.type);
#endif
	cyaml_err_t v_ret = FN(&g_ctx, &g_ev);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
