/*
 * A value of any schema type against a node of any kind: contract on
 * cyaml__read_value.  The per-type readers are replaced by their contracts.
 */
#define V_UNIT_GHOSTS unsigned called, kind; cyaml_err_t code; \
	uint8_t *at; const cyaml_schema_value_t *with; bool zeroed, type_ok;
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"
#include "load.c"
#include "load_env.h"

enum { SCALAR = 1, FLAGS_, BITS, MAP, SEQ, SKIP };
static cyaml_err_t v_reader(unsigned kind, const cyaml_schema_value_t *schema,
		cyaml_data_t *data)
{
	g.called++;
	g.kind = kind;
	g.with = schema;
	g.at = data;
	/* the first, last and one arbitrary byte of a fresh allocation */
	g.zeroed = g.mem_allocs == 0 || (((uint8_t *)data)[0] == 0 &&
			((uint8_t *)data)[g.mem_last_size - 1] == 0 &&
			((uint8_t *)data)[g.mk < g.mem_last_size ? g.mk : 0] == 0);
	g.code = v_err("reader.result");
	return g.code;
}
static cyaml_err_t cyaml__read_scalar_value(const cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema, cyaml_data_t *data,
		const yaml_event_t *event)
{
	V_ASSERT("the scalar event is passed on", event == &ctx->event_ctx.event);
	return v_reader(SCALAR, schema, data);
}
static cyaml_err_t cyaml__read_flags_value(cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema, cyaml_data_t *data)
{ return v_reader(FLAGS_, schema, data); }
static cyaml_err_t cyaml__read_bitfield_value(cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema, cyaml_data_t *data)
{ return v_reader(BITS, schema, data); }
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state,
		const yaml_event_t *event, const cyaml_schema_value_t *schema,
		cyaml_data_t *data)
{
	V_ASSERT("only a mapping or a sequence is entered",
		state == CYAML_STATE_IN_MAP_KEY || state == CYAML_STATE_IN_SEQUENCE);
	return v_reader(state == CYAML_STATE_IN_MAP_KEY ? MAP : SEQ, schema, data);
}
static cyaml_err_t cyaml__consume_ignored_value(cyaml_ctx_t *ctx, cyaml_event_t t)
{
	g.called++;
	g.kind = SKIP;
	g.type_ok = t == (cyaml_event_t)ctx->event_ctx.event.type;
	g.code = v_err("reader.result");
	return g.code;
}

#define EV (g_ctx.event_ctx.event.type)
#define T (schema->type)
#define F(x) (((unsigned)schema->flags & (unsigned)(x)) == (unsigned)(x))
#define IS1(a) (g.value_len == 1 && g.value[0] == (a))
#define IS4(a, b, c, d) (g.value_len == 4 && g.value[0] == (a) && \
	g.value[1] == (b) && g.value[2] == (c) && g.value[3] == (d))
#define NULL_TEXT ((F(CYAML_FLAG_POINTER_NULL) && g.value_len == 0) || \
	(F(CYAML_FLAG_POINTER_NULL_STR) && (IS1('~') || IS4('n','u','l','l') || \
		IS4('N','u','l','l') || IS4('N','U','L','L'))))
#define IS_NULL (EV == YAML_SCALAR_EVENT && NULL_TEXT)
#define WANT_SCALAR (T == CYAML_INT || T == CYAML_UINT || T == CYAML_BOOL || \
	T == CYAML_ENUM || T == CYAML_FLOAT || T == CYAML_STRING)
#define WANT_SEQ (T == CYAML_FLAGS || T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define WANT_MAP (T == CYAML_BITFIELD || T == CYAML_MAPPING)
#define KIND_OK ((WANT_SCALAR && EV == YAML_SCALAR_EVENT) || \
	(WANT_SEQ && EV == YAML_SEQUENCE_START_EVENT) || \
	(WANT_MAP && EV == YAML_MAPPING_START_EVENT) || T == CYAML_IGNORE)
#define READER (WANT_SCALAR ? SCALAR : T == CYAML_FLAGS ? FLAGS_ : \
	T == CYAML_BITFIELD ? BITS : T == CYAML_MAPPING ? MAP : \
	T == CYAML_IGNORE ? SKIP : SEQ)
#define IS_SEQ (T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define ALLOC (g_is_ptr && !IS_SEQ)
#define ALLOC_SIZE (T == CYAML_STRING ? g.value_len + 1 : (size_t)g_size)
#define RUN (KIND_OK && !IS_NULL && !(ALLOC && g.mem_fails != 0))

#define CLAUSES(E) \
E("a NULL literal gives a NULL pointer exactly where the schema permits it", \
	IMP(IS_NULL, RET == CYAML_OK && g.called == 0 && g.mem_allocs == 0 && SAME_SLOT)) \
E("a node of a kind the schema type does not take is rejected", \
	IMP(!IS_NULL && !KIND_OK && T < CYAML__TYPE_COUNT, RET == CYAML_ERR_INVALID_VALUE)) \
E("a schema with no valid type is rejected", \
	IMP(!IS_NULL && T >= CYAML__TYPE_COUNT, RET == CYAML_ERR_BAD_TYPE_IN_SCHEMA)) \
E("a rejected node is not read, and touches nothing", \
	IMP(!IS_NULL && !KIND_OK, g.called == 0 && g.mem_allocs == 0 && SAME_SLOT)) \
E("an acceptable node is read as the schema's type, once", \
	IMP(RUN, g.called == 1 && g.kind == READER)) \
E("the outcome of reading is the outcome", \
	IMP(RUN, RET == g.code)) \
E("the value is read with its own schema into its own place", \
	IMP(RUN && T != CYAML_IGNORE, g.with == schema && g.at == (ALLOC ? (uint8_t *)g.mem_last : g_slot))) \
E("an ignored value is skipped from its own start", \
	IMP(RUN && T == CYAML_IGNORE, g.type_ok)) \
E("[P06,P10] a pointer value gets its own zeroed allocation of the right size", \
	IMP(RUN && ALLOC, g.mem_allocs == 1 && g.mem_last_size == ALLOC_SIZE && \
		SLOT_PTR == g.mem_last && (T == CYAML_IGNORE || g.zeroed))) \
E("[P10] allocation failure gives OOM, and touches nothing", \
	IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM && g.called == 0 && SAME_SLOT)) \
E("no allocation is made for an embedded value, nor a failed one", \
	IMP(!RUN || !ALLOC, g.mem_allocs == 0 && SAME_SLOT)) \
E("nothing is freed", g.mem_frees == 0)

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t cyaml__read_value(cyaml_ctx_t *ctx,
		const cyaml_schema_value_t *schema, uint8_t *data,
		const yaml_event_t *event)
__CPROVER_assigns(GHOST)
__CPROVER_assigns(g_is_ptr: __CPROVER_object_upto(data, sizeof(void *)))
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	cyaml_schema_value_t s = { 0 };
	const cyaml_schema_value_t *schema = &s;

	v_env_init();
	g.mk = (size_t)v_in_u32("tracked.byte");
	s.type = (cyaml_type_e)v_in_u8("schema.type");
	s.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	s.data_size = g_size = v_in_u32("schema.data_size");
	/* a pointer to a type of no size is not a schema */
	V_ASSUME(g_size > 0 && g_size < 0x1000000);
	g_is_ptr = (s.flags & CYAML_FLAG_POINTER) != 0;
	g_ctx.event_ctx.event = (yaml_event_t){ 0 };
	switch (v_in_u8("event") % 3) {
	case 0:
		g_ctx.event_ctx.event = v_scalar_event();
		break;
	case 1: EV = YAML_SEQUENCE_START_EVENT; break;
	default: EV = YAML_MAPPING_START_EVENT; break;
	}
	v_slot();
	cyaml_err_t v_ret = cyaml__read_value(&g_ctx, schema, g_slot,
			&g_ctx.event_ctx.event);
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
