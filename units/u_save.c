/*
 * save.c, function by function, over a model of libyaml's emitter interface
 * (each call recorded, any of them may fail).
 *   V_VALUE cyaml__write_value (NULL pointers, numbers, strings, dispatch)
 *   V_ENUM  cyaml__write_value of enumerations (any table)
 *   V_FLAGS cyaml__write_flags_value        V_BITS cyaml__write_bitfield_value
 *   V_MAP   cyaml__write_mapping            V_SEQ  cyaml__write_sequence
 *   V_PUSH  cyaml__stack_push               V_POPEV cyaml__stack_pop_write_event
 *   V_START/V_STREAM/V_DOC  the states around the document
 */
#define V_UNIT_GHOSTS \
	unsigned emits, inits, pushes, pops, writes; bool init_failed, emit_failed; \
	int ev_type[3]; const void *ev_val[3]; int ev_style[3]; bool ev_implicit[3]; const void *ev_tag[3]; size_t ev_len[3]; \
	const char *len_of; size_t len; \
	const char *fmt_buf; int fmt_kind; uint64_t fmt_u; double fmt_d; int fmt_digits; bool readback; unsigned fmts; \
	const cyaml_schema_value_t *w_schema; const uint8_t *w_data; uint64_t w_count; int w_state; cyaml_err_t code; \
	uint64_t seen_entry; const void *seen_field; bool pop_emit; \
	uint64_t vi; bool any; uint64_t last; uint64_t acc; uint64_t rest_text; bool rest, tracked, bad; unsigned opens, closes; bool name_open;
#include <yaml.h>
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"

/* the client's table (enumeration / flags / bitfield), any size */
static uint32_t g_count;
static uint64_t g_first, g_k, g_num;
static uint32_t g_n;
static yaml_emitter_t g_emitter;
static cyaml_schema_value_t g_sch, g_ent;
#define T (g_sch.type)
static cyaml_strval_t *g_tab;
static cyaml_bitdef_t *g_bits;
static uint32_t g_size2;
#define DEFMASK(k) (((~(uint64_t)0) >> (64 - g_bits[k].bits)) << g_bits[k].offset)
#define DEF_OK(k) ((unsigned)g_bits[k].bits + g_bits[k].offset <= 8 * (uint64_t)g_size2)
#define FITS(k) (((uint64_t)g_tab[k].val & ~g_num) == 0)

/* ---- number formatting: what the text denotes ------------------------------ */
enum { F_NONE, F_DEC, F_UDEC, F_HEX, F_FLOAT };
static int v_fmt(char *s, const char *f, uint64_t u, double d, bool is_d, int prec)
{
	/* conversions whose result denotes exactly the argument */
#define IS_(x, k, more) (f[k] == (x)[k] && ((x)[k] == 0 || (more)))
#define IS(x) IS_(x, 0, IS_(x, 1, IS_(x, 2, IS_(x, 3, IS_(x, 4, IS_(x, 5, false))))))
	g.fmts++;
	g.fmt_buf = s;
	g.fmt_u = u;
	g.fmt_d = d;
	g.readback = false;
	g.fmt_kind = F_NONE;
	if (is_d) {
		g.fmt_kind = F_FLOAT;
		g.fmt_digits = IS("%.16e") ? 17 : IS("%.17g") ? 17 : IS("%.9g") ? 9 : IS("%.8e") ? 9 : IS("%g") ? 6 :
			IS("%.*g") ? prec : IS("%.*e") ? prec + 1 : 0;
	} else {
		g.fmt_kind = IS("%ld") || IS("%li") ? F_DEC : IS("%lu") ? F_UDEC :
			IS("0x%lx") || IS("0x%lX") ? F_HEX : F_NONE;
	}
	V_ASSERT("[P14,P15] the conversion is one that denotes the number", g.fmt_kind != F_NONE);
	s[0] = '1';
	s[1] = '\0';
	return 1;
}
static int v_fmt_i(char *s, const char *f, int64_t v) { return v_fmt(s, f, (uint64_t)v, 0, false, 0); }
static int v_fmt_u(char *s, const char *f, uint64_t v) { return v_fmt(s, f, v, 0, false, 0); }
static int v_fmt_d(char *s, const char *f, double v) { return v_fmt(s, f, 0, v, true, 0); }
static int v_fmt_pd(char *s, const char *f, int p, double v) { return v_fmt(s, f, 0, v, true, p); }
#include <stdio.h>
#undef sprintf
#undef snprintf
#define V_FMT1(s, f, v) _Generic((v), double: v_fmt_d, float: v_fmt_d, long: v_fmt_i, long long: v_fmt_i, int: v_fmt_i, default: v_fmt_u)(s, f, v)
#define V_FMTSEL(a, b, c, d, NAME, ...) NAME
#define sprintf(...) V_FMTSEL(__VA_ARGS__, v_fmt_pd, V_FMT1, 0)(__VA_ARGS__)
#define snprintf(s, n, ...) sprintf(s, __VA_ARGS__)
/* reading the text back: enough digits give back the same float */
static float v_strtof(const char *s, char **end)
{
	(void)end;
	V_ASSERT("[P14] what is read back is what was formatted", s == g.fmt_buf && g.fmt_kind == F_FLOAT);
	float f = v_in_f32("read.back");
	if (g.fmt_digits >= 9 && g.fmt_d == g.fmt_d) { V_ASSUME(f == (float)g.fmt_d); }
	g.readback = f == (float)g.fmt_d;
	return f;
}
#define strtof v_strtof

static size_t v_save_strlen(const char *s)
{
	g.len_of = s;
	g.len = s == g.value ? g.value_len : V_SAME_OBJECT(s, g.names) && g.names != NULL && s >= g.names && s <= g.names + g_count ?
		(size_t)v_in_u8("name.length") : (size_t)1;
	return g.len;
}
#undef strlen
#define strlen v_save_strlen

/* ---- libyaml's emitter ------------------------------------------------------- */
static int v_init(yaml_event_t *e, int type)
{
	*e = (yaml_event_t){ 0 };
	e->type = (yaml_event_type_t)type;
	g.inits += g.inits < 9;
	g.init_failed = v_in_bool("init.fail");
	return !g.init_failed;
}
static int v_scalar_init(yaml_event_t *e, const yaml_char_t *anchor, const yaml_char_t *tag, const yaml_char_t *value,
		int length, int plain, int quoted, yaml_scalar_style_t style)
{
	int r = v_init(e, YAML_SCALAR_EVENT);
	V_ASSERT("[P14,P15,P16] the scalar is the whole text", length < 0 || ((const char *)value == g.len_of && (size_t)length == g.len));
	V_ASSERT("[P14,P15,P16] the scalar has no anchor", anchor == NULL);
	e->data.scalar.value = (yaml_char_t *)value;
	e->data.scalar.tag = (yaml_char_t *)tag;
	e->data.scalar.plain_implicit = plain;
	e->data.scalar.quoted_implicit = quoted;
	e->data.scalar.style = style;
	return r;
}
static int v_seq_init(yaml_event_t *e, const yaml_char_t *anchor, const yaml_char_t *tag, int implicit, yaml_sequence_style_t style)
{
	int r = v_init(e, YAML_SEQUENCE_START_EVENT);
	e->data.sequence_start.style = style;
	e->data.sequence_start.implicit = implicit;
	V_ASSERT("[P15,P16] no anchor", anchor == NULL);
	return r;
}
static int v_map_init(yaml_event_t *e, const yaml_char_t *anchor, const yaml_char_t *tag, int implicit, yaml_mapping_style_t style)
{
	int r = v_init(e, YAML_MAPPING_START_EVENT);
	e->data.mapping_start.style = style;
	e->data.mapping_start.implicit = implicit;
	V_ASSERT("[P15,P16] no anchor", anchor == NULL);
	return r;
}
static int v_doc_init(yaml_event_t *e, yaml_version_directive_t *v, yaml_tag_directive_t *s, yaml_tag_directive_t *d, int implicit)
{
	int r = v_init(e, YAML_DOCUMENT_START_EVENT);
	V_ASSERT("[P16] no directives", v == NULL && s == d);
	e->data.document_start.implicit = implicit;
	return r;
}
static int v_docend_init(yaml_event_t *e, int implicit)
{
	int r = v_init(e, YAML_DOCUMENT_END_EVENT);
	e->data.document_end.implicit = implicit;
	return r;
}
static void v_note_emit(yaml_event_t *e);
static int v_emit(yaml_emitter_t *em, yaml_event_t *e)
{
	V_ASSERT("[P16] it is this output that is written to", em == &g_emitter);
	V_ASSERT("[P16,P17] only complete events are written", !g.init_failed);
	V_ASSERT("[P16,P17] nothing is written after a failure", !g.emit_failed);
	v_note_emit(e);
	g.emits += g.emits < 9;
	g.emit_failed = v_in_bool("emit.fail");
	return !g.emit_failed;
}
#define yaml_stream_start_event_initialize(e, c) (V_ASSERT("[P16] UTF-8 output", (c) == YAML_UTF8_ENCODING), v_init(e, YAML_STREAM_START_EVENT))
#define yaml_stream_end_event_initialize(e) v_init(e, YAML_STREAM_END_EVENT)
#define yaml_document_start_event_initialize v_doc_init
#define yaml_document_end_event_initialize v_docend_init
#define yaml_sequence_start_event_initialize v_seq_init
#define yaml_sequence_end_event_initialize(e) v_init(e, YAML_SEQUENCE_END_EVENT)
#define yaml_mapping_start_event_initialize v_map_init
#define yaml_mapping_end_event_initialize(e) v_init(e, YAML_MAPPING_END_EVENT)
#define yaml_scalar_event_initialize v_scalar_init
#define yaml_emitter_emit v_emit

#include "save.c"
#define V_NO_EVENTS
#include "load_env.h"

static uint8_t *g_src, *g_val;
static cyaml_state_t g_old_state, g_new_state;
static uint64_t g_seq;
static size_t g_off;
#define IS_SEQ (T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define PTR ((g_sch.flags & CYAML_FLAG_POINTER) != 0)
#define NULL_OK ((g_sch.flags & CYAML_FLAG_POINTER_NULL) == CYAML_FLAG_POINTER_NULL)
#define NULLSTR_OK ((g_sch.flags & CYAML_FLAG_POINTER_NULL_STR) == CYAML_FLAG_POINTER_NULL_STR)
#define IOERR (g.emit_failed ? CYAML_ERR_LIBYAML_EMITTER : CYAML_ERR_LIBYAML_EVENT_INIT)
#define IOFAIL (g.emit_failed || g.init_failed)

#if !defined(V_FLAGS) && !defined(V_BITS)
static void v_note_emit(yaml_event_t *e)
{
	unsigned k = g.emits < 2 ? g.emits : 2;
	g.ev_type[k] = e->type;
	if (e->type == YAML_SCALAR_EVENT) {
		g.ev_val[k] = e->data.scalar.value;
		g.ev_style[k] = e->data.scalar.style;
		g.ev_implicit[k] = e->data.scalar.plain_implicit && e->data.scalar.quoted_implicit;
	} else if (e->type == YAML_SEQUENCE_START_EVENT) {
		g.ev_style[k] = e->data.sequence_start.style;
		g.ev_implicit[k] = e->data.sequence_start.implicit;
	} else if (e->type == YAML_MAPPING_START_EVENT) {
		g.ev_style[k] = e->data.mapping_start.style;
		g.ev_implicit[k] = e->data.mapping_start.implicit;
	} else if (e->type == YAML_DOCUMENT_START_EVENT) {
		g.ev_implicit[k] = e->data.document_start.implicit;
	} else if (e->type == YAML_DOCUMENT_END_EVENT) {
		g.ev_implicit[k] = e->data.document_end.implicit;
	}
}
#endif
#define SCALAR_STYLE ( \
	(g_sch.flags & CYAML_FLAG_SCALAR_QUOTE_DOUBLE) ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : \
	(g_sch.flags & CYAML_FLAG_SCALAR_QUOTE_SINGLE) ? YAML_SINGLE_QUOTED_SCALAR_STYLE : \
	(g_sch.flags & CYAML_FLAG_SCALAR_LITERAL) ? YAML_LITERAL_SCALAR_STYLE : \
	(g_sch.flags & CYAML_FLAG_SCALAR_FOLDED) ? YAML_FOLDED_SCALAR_STYLE : \
	(g_sch.flags & CYAML_FLAG_SCALAR_PLAIN) ? YAML_PLAIN_SCALAR_STYLE : YAML_ANY_SCALAR_STYLE)
#define COLL_STYLE(b, f, a) ((g_sch.flags & CYAML_FLAG_BLOCK) ? (b) : (g_sch.flags & CYAML_FLAG_FLOW) ? (f) : \
	(g_cfg.flags & CYAML_CFG_STYLE_BLOCK) ? (b) : (g_cfg.flags & CYAML_CFG_STYLE_FLOW) ? (f) : (a))

/* ---- replaced callees ---------------------------------------------------------- */
#if defined(V_VALUE) || defined(V_START) || defined(V_STREAM)
static cyaml_err_t cyaml__stack_push(cyaml_ctx_t *ctx, enum cyaml_state_e state,
		const cyaml_schema_value_t *schema, const cyaml_data_t *data)
{
	cyaml_err_t e = v_err("push.result");
	V_ASSERT("[P16] this save's state is used", ctx == &g_ctx);
	g.pushes++;
	g.code = e;
	g.w_state = state;
	g.w_schema = schema;
	g.w_data = data;
	if (e == CYAML_OK) {
		g_new_state = (cyaml_state_t){ 0 };
		g_new_state.state = state;
		ctx->state = &g_new_state;
		ctx->stack_idx++;
	}
	return e;
}
#endif
#if defined(V_MAP) || defined(V_SEQ) || defined(V_STREAM) || defined(V_DOC)
static cyaml_err_t cyaml__stack_pop(cyaml_ctx_t *ctx, bool emit)
{
	g.pops++;
	g.pop_emit = emit;
	V_ASSERT("[P16] this save's state is left", ctx == &g_ctx);
	return g.code = v_err("pop.result");
}
#endif
#if defined(V_MAP) || defined(V_SEQ) || defined(V_DOC)
static cyaml_err_t cyaml__write_value(cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const uint8_t *data, uint64_t seq_count)
{
	V_ASSERT("[P16] this save's state is used", ctx == &g_ctx);
	V_ASSERT("[P16] a value follows its key", !g.emit_failed);
	g.writes++;
	g.w_schema = schema;
	g.w_data = data;
	g.w_count = seq_count;
	g.seen_entry = ctx->state->sequence.entry;
	g.seen_field = ctx->state->mapping.field;
	return g.code = v_err("write.result");
}
#endif
#if defined(V_VALUE)
static cyaml_err_t cyaml__write_flags_value(const cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const cyaml_data_t *data)
{
	g.writes++; g.w_schema = schema; g.w_data = data; g.w_state = CYAML_FLAGS;
	return g.code = v_err("flags.result");
}
static cyaml_err_t cyaml__write_bitfield_value(const cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const cyaml_data_t *data)
{
	g.writes++; g.w_schema = schema; g.w_data = data; g.w_state = CYAML_BITFIELD;
	return g.code = v_err("bitfield.result");
}
#endif
#if defined(V_PUSH)
static cyaml_err_t cyaml__stack_ensure(cyaml_ctx_t *ctx)
{
	V_ASSERT("[P16,P17] room is made in this stack", ctx == &g_ctx);
	if (v_in_bool("mem.fail")) { g.mem_fails++; return CYAML_ERR_OOM; }
	return CYAML_OK;
}
#endif

#define SZ_OK (g_size2 >= 1 && g_size2 <= 8)
#define WHERE (PTR ? g_val : g_src)
#define UVAL spec_uint_at(WHERE, g_size2)
#define IVAL spec_int_at(WHERE, g_size2)
#define ONE_SCALAR (g.emits == 1 && g.ev_type[0] == YAML_SCALAR_EVENT && g.ev_implicit[0])
static float g_f;
static double g_d;

#if defined(V_VALUE)
#define NUL (PTR && g_val == NULL)
#define NUMT (T == CYAML_INT || T == CYAML_UINT || T == CYAML_BOOL)
#define FSZ (g_size2 == sizeof(float) || g_size2 == sizeof(double))
#define SCAL (NUMT || T == CYAML_FLOAT || T == CYAML_STRING)
#define WRITTEN (!NUL && ((NUMT && SZ_OK) || (T == CYAML_FLOAT && FSZ) || T == CYAML_STRING))
#define TEXT ((const char *)g.ev_val[0])
#define CLAUSES(E) \
E("[P16] a NULL pointer is written as null, or empty, where that is allowed", IMP(NUL && (NULL_OK || NULLSTR_OK) && !IOFAIL, RET == CYAML_OK && ONE_SCALAR && \
	(NULLSTR_OK ? TEXT[0] == 'n' && TEXT[1] == 'u' && TEXT[2] == 'l' && TEXT[3] == 'l' && TEXT[4] == 0 : TEXT[0] == 0))) \
E("[P16] any other NULL pointer is an error, and nothing is written", IMP(NUL && !NULL_OK && !NULLSTR_OK, RET != CYAML_OK && g.inits == 0 && g.emits == 0)) \
E("[P16] a NULL value is not entered", IMP(NUL, g.pushes == 0 && g.writes == 0)) \
E("[P14] a member of impossible size is an error, and nothing is written", IMP(!NUL && ((NUMT && !SZ_OK) || (T == CYAML_FLOAT && !FSZ)), \
	RET == CYAML_ERR_INVALID_DATA_SIZE && g.inits == 0 && g.emits == 0)) \
E("[P14,P16] any other scalar is written as one scalar", IMP(WRITTEN && !IOFAIL, RET == CYAML_OK && ONE_SCALAR)) \
E("[P16] the scalar has the style the schema asks for", IMP(WRITTEN && !IOFAIL, g.ev_style[0] == SCALAR_STYLE)) \
E("[P14] a signed integer is written as its value", IMP(T == CYAML_INT && WRITTEN && !IOFAIL, g.fmts == 1 && TEXT == g.fmt_buf && \
	(g.fmt_kind == F_DEC && (int64_t)g.fmt_u == IVAL))) \
E("[P14] an unsigned integer is written as its value", IMP(T == CYAML_UINT && WRITTEN && !IOFAIL, g.fmts == 1 && TEXT == g.fmt_buf && \
	((g.fmt_kind == F_UDEC || g.fmt_kind == F_HEX) && g.fmt_u == UVAL))) \
E("[P14] a boolean is written as true or false", IMP(T == CYAML_BOOL && WRITTEN && !IOFAIL, \
	UVAL != 0 ? TEXT[0] == 't' && TEXT[1] == 'r' && TEXT[2] == 'u' && TEXT[3] == 'e' && TEXT[4] == 0 : \
	TEXT[0] == 'f' && TEXT[1] == 'a' && TEXT[2] == 'l' && TEXT[3] == 's' && TEXT[4] == 'e' && TEXT[5] == 0)) \
E("[P14] a float is written with the digits that give it back", IMP(T == CYAML_FLOAT && WRITTEN && !IOFAIL && g_size2 == 4, \
	TEXT == g.fmt_buf && g.fmt_kind == F_FLOAT && (g.fmt_digits >= 9 || g.readback) && (g.fmt_d == (double)g_f || g_f != g_f))) \
E("[P14] a double is written with the digits that give it back", IMP(T == CYAML_FLOAT && WRITTEN && !IOFAIL && g_size2 == 8, \
	TEXT == g.fmt_buf && g.fmt_kind == F_FLOAT && g.fmt_digits >= 17 && (g.fmt_d == g_d || g_d != g_d))) \
E("[P16] a string is written as it is", IMP(T == CYAML_STRING && WRITTEN && !IOFAIL, TEXT == (const char *)WHERE)) \
E("[P16,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR)) \
E("[P15,P16] flags and bitfields are written from the value itself", IMP(!NUL && (T == CYAML_FLAGS || T == CYAML_BITFIELD), \
	RET == g.code && g.writes == 1 && g.w_state == (int)T && g.w_schema == &g_sch && g.w_data == WHERE && g.pushes == 0 && g.emits == 0)) \
E("[P16] a fixed-length sequence has one length", IMP(!NUL && T == CYAML_SEQUENCE_FIXED && g_sch.sequence.min != g_sch.sequence.max, \
	RET == CYAML_ERR_SEQUENCE_FIXED_COUNT && g.pushes == 0)) \
E("[P16] a mapping or sequence is entered, with its own schema and data", IMP(!NUL && (T == CYAML_MAPPING || T == CYAML_SEQUENCE || \
	(T == CYAML_SEQUENCE_FIXED && g_sch.sequence.min == g_sch.sequence.max)), RET == g.code && g.pushes == 1 && g.w_schema == &g_sch && g.w_data == WHERE && \
	g.w_state == (T == CYAML_MAPPING ? CYAML_STATE_IN_MAP_KEY : CYAML_STATE_IN_SEQUENCE))) \
E("[P16] a sequence is entered with its count", IMP(g.pushes != 0 && IS_SEQ && RET == CYAML_OK, g_new_state.sequence.count == g_seq && g_new_state.sequence.entry == 0)) \
E("[P16] scalars enter nothing", IMP(!(T == CYAML_MAPPING || IS_SEQ), g.pushes == 0)) \
E("[P16] a type that cannot be saved is an error", IMP(!NUL && T >= CYAML_IGNORE, RET == CYAML_ERR_BAD_TYPE_IN_SCHEMA)) \
E("[P16,P17] saving allocates nothing here", g.mem_allocs == 0 && g.mem_fails == 0)
#define FN cyaml__write_value
#define ARGS (cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const uint8_t *data, uint64_t seq_count)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, g_new_state)

#elif defined(V_ENUM)
#define FOUND (g_first < g_count)
#define STRICT ((g_sch.flags & CYAML_FLAG_STRICT) != 0)
#define CLAUSES(E) \
E("a member of impossible size is an error, and nothing is written", IMP(!SZ_OK, RET == CYAML_ERR_INVALID_DATA_SIZE && g.inits == 0)) \
E("a value with a name is written as the first such name", IMP(SZ_OK && FOUND && !IOFAIL, RET == CYAML_OK && ONE_SCALAR && \
	(const char *)g.ev_val[0] == g.names + g_first)) \
E("a value without a name is an error when strict", IMP(SZ_OK && !FOUND && STRICT, RET == CYAML_ERR_INVALID_VALUE && g.inits == 0)) \
E("a value without a name is written as its number otherwise", IMP(SZ_OK && !FOUND && !STRICT && !IOFAIL, RET == CYAML_OK && ONE_SCALAR && \
	g.ev_val[0] == g.fmt_buf && g.fmt_kind == F_DEC && (int64_t)g.fmt_u == IVAL)) \
E("[P15,P16] the scalar has the style the schema asks for", IMP(g.emits != 0, g.ev_style[0] == SCALAR_STYLE)) \
E("[P15,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR))
#define FN cyaml__write_value
#define ARGS (cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const uint8_t *data, uint64_t seq_count)
#define FRAME __CPROVER_assigns(GHOST, g_ctx)

#elif defined(V_FLAGS)
#define STRICT ((g_sch.flags & CYAML_FLAG_STRICT) != 0)
/* entry k is written: it is in the value, and adds to what was written */
static void v_note_emit(yaml_event_t *e)
{
	switch (e->type) {
	case YAML_SEQUENCE_START_EVENT:
		V_ASSERT("the list is started once, first", g.emits == 0 && g.opens == 0 && e->data.sequence_start.implicit);
		g.opens++;
		break;
	case YAML_SEQUENCE_END_EVENT:
		V_ASSERT("the list is ended once", g.opens == 1 && g.closes == 0);
		g.closes++;
		break;
	case YAML_SCALAR_EVENT:
		V_ASSERT("names are written inside the list", g.opens == 1 && g.closes == 0);
		V_ASSERT("scalars need no tag", e->data.scalar.plain_implicit && e->data.scalar.quoted_implicit);
		if ((const char *)e->data.scalar.value == g.fmt_buf) {
			V_ASSERT("the number is unsigned, and last, once", (g.fmt_kind == F_UDEC || g.fmt_kind == F_HEX) && !g.rest);
			g.rest = true;
			g.acc |= g.fmt_u;
			V_ASSERT("a number adds bits that are set only", (g.fmt_u & ~g_num) == 0);
		} else {
			uint64_t vi = V_SAME_OBJECT(e->data.scalar.value, g.names) && (const char *)e->data.scalar.value >= g.names ?
				(uint64_t)((const char *)e->data.scalar.value - g.names) : g_count;
			V_ASSERT("otherwise it is a name", vi < g_count && !g.rest);
			g.vi = vi;
			V_ASSERT("each name once, in order", !g.any || g.last < g.vi);
			V_ASSERT("[P15] a name written is for bits that are all set", ((uint64_t)g_tab[g.vi].val & ~g_num) == 0);
			g.any = true;
			g.last = g.vi;
			g.acc |= (uint64_t)g_tab[g.vi].val;
		}
		break;
	default:
		V_ASSERT("nothing else is written", false);
	}
}
#define CLAUSES(E) \
E("a member of impossible size is an error, and nothing is written", IMP(!SZ_OK, RET == CYAML_ERR_INVALID_DATA_SIZE && g.inits == 0)) \
E("what is written is exactly the value", IMP(RET == CYAML_OK, g.acc == g_num)) \
E("no name that fits is left out when that is an error", IMP(SZ_OK && !IOFAIL && RET != CYAML_OK && g_k < g_count && FITS(g_k), ((uint64_t)g_tab[g_k].val & ~g.acc) == 0)) \
E("a list is started and ended", IMP(RET == CYAML_OK, g.opens == 1 && g.closes == 1)) \
E("numbers only when not strict", IMP(STRICT, !g.rest)) \
E("all bits named: success", IMP(SZ_OK && !IOFAIL && g_allnamed, RET == CYAML_OK && !g.rest)) \
E("[P15,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR)) \
E("otherwise only bits without a name are an error, when strict", IMP(SZ_OK && !IOFAIL && RET != CYAML_OK, STRICT && RET == CYAML_ERR_INVALID_VALUE && g.acc != g_num))
static bool g_allnamed;
#define FN cyaml__write_flags_value
#define ARGS (const cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const cyaml_data_t *data)
#define FRAME __CPROVER_assigns(GHOST)

#elif defined(V_BITS)
static void v_note_emit(yaml_event_t *e)
{
	switch (e->type) {
	case YAML_MAPPING_START_EVENT:
		V_ASSERT("the mapping is started once, first", g.emits == 0 && g.opens == 0 && e->data.mapping_start.implicit);
		g.opens++;
		break;
	case YAML_MAPPING_END_EVENT:
		V_ASSERT("the mapping is ended once, not between key and value", g.opens == 1 && g.closes == 0 && !g.name_open);
		g.closes++;
		break;
	case YAML_SCALAR_EVENT:
		V_ASSERT("entries are written inside the mapping", g.opens == 1 && g.closes == 0);
		V_ASSERT("scalars need no tag", e->data.scalar.plain_implicit && e->data.scalar.quoted_implicit);
		if (!g.name_open) {
			uint64_t vi = V_SAME_OBJECT(e->data.scalar.value, g.names) && (const char *)e->data.scalar.value >= g.names ?
				(uint64_t)((const char *)e->data.scalar.value - g.names) : g_count;
			V_ASSERT("a key is a name", vi < g_count);
			g.vi = vi;
			V_ASSERT("each name once, in order", !g.any || g.last < g.vi);
			V_ASSERT("[P15] fields that are zero are left out", (g_num & DEFMASK(g.vi)) != 0);
			g.any = true;
			g.last = g.vi;
			g.name_open = true;
		} else {
			V_ASSERT("a value is the field's number", (const char *)e->data.scalar.value == g.fmt_buf &&
				(g.fmt_kind == F_UDEC || g.fmt_kind == F_HEX) && g.fmt_u == (g_num & DEFMASK(g.vi)) >> g_bits[g.vi].offset);
			g.name_open = false;
			if (g.vi == g_k) { g.tracked = true; }
		}
		break;
	default:
		V_ASSERT("nothing else is written", false);
	}
}
#define CLAUSES(E) \
E("a member of impossible size is an error, and nothing is written", IMP(!SZ_OK, RET == CYAML_ERR_INVALID_DATA_SIZE && g.inits == 0)) \
E("a mapping is started and ended", IMP(RET == CYAML_OK, g.opens == 1 && g.closes == 1 && !g.name_open)) \
E("every field that is not zero is written", IMP(RET == CYAML_OK && g_k < g_count, g.tracked == ((g_num & DEFMASK(g_k)) != 0))) \
E("[P15,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR)) \
E("otherwise only a bit range outside the member is an error", IMP(SZ_OK && !IOFAIL && RET != CYAML_OK, RET == CYAML_ERR_BAD_BITVAL_IN_SCHEMA && g.bad)) \
E("a bit range outside the member is an error", IMP(SZ_OK && !IOFAIL && g_k < g_count && !DEF_OK(g_k), RET == CYAML_ERR_BAD_BITVAL_IN_SCHEMA))
#define FN cyaml__write_bitfield_value
#define ARGS (const cyaml_ctx_t *ctx, const cyaml_schema_value_t *schema, const cyaml_data_t *data)
#define FRAME __CPROVER_assigns(GHOST)

#elif defined(V_MAP)
static cyaml_schema_field_t g_field[2];
static bool g_end, g_isnull;
static uint32_t g_ssize;
#define FV (g_field[0].value)
#define FT (FV.type)
#define CS_OK (g_field[0].count_size >= 1 && g_field[0].count_size <= 8)
#define SKIP (FT == CYAML_IGNORE || ((FV.flags & CYAML_FLAG_OPTIONAL) && (FV.flags & CYAML_FLAG_POINTER) && g_isnull))
#define KEYED (!g_end && !SKIP && !IOFAIL)
#define VALUED (KEYED && !(FT == CYAML_SEQUENCE && !CS_OK))
#define CLAUSES(E) \
E("the end of the fields ends the mapping, in the output too", IMP(g_end, RET == g.code && g.pops == 1 && g.pop_emit && g.inits == 0 && g.writes == 0)) \
E("fields remain in the mapping", IMP(!g_end, g.pops == 0)) \
E("ignored fields and optional NULL pointers are left out", IMP(!g_end && SKIP, RET == CYAML_OK && g.inits == 0 && g.writes == 0)) \
E("any other field is written as its key, then its value", IMP(KEYED, g.emits == 1 && g.ev_type[0] == YAML_SCALAR_EVENT && g.ev_implicit[0] && \
	(const char *)g.ev_val[0] == g_field[0].key)) \
E("the value is written from its own place, with its own schema", IMP(VALUED, g.writes == 1 && RET == g.code && g.w_schema == &FV && \
	g.w_data == g_src + g_field[0].data_offset)) \
E("every field is gone to once, in order", IMP(!g_end && !IOFAIL, g_old_state.mapping.field == &g_field[1]) && IMP(VALUED, g.seen_field == &g_field[1])) \
E("a sequence field has the count the client's data holds", IMP(VALUED && FT == CYAML_SEQUENCE, \
	g.w_count == spec_uint_at(g_src + g_field[0].count_offset, g_field[0].count_size))) \
E("a fixed-length sequence field has its schema's count", IMP(VALUED && FT == CYAML_SEQUENCE_FIXED && FV.sequence.min == FV.sequence.max, g.w_count == FV.sequence.max)) \
E("a count of impossible size is an error", IMP(KEYED && !VALUED, RET == CYAML_ERR_INVALID_DATA_SIZE && g.writes == 0)) \
E("[P16,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR && g.writes == 0))
#define FN cyaml__write_mapping
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, g_old_state)

#elif defined(V_SEQ)
static uint64_t g_i;
static size_t g_stride;
#define EMORE (g_i < g_seq)
#define NEST (EMORE && g_ent.type == CYAML_SEQUENCE)
#define GOOD (EMORE && !NEST)
#define CLAUSES(E) \
E("after the last entry the sequence ends, in the output too", IMP(!EMORE, RET == g.code && g.pops == 1 && g.pop_emit && g.writes == 0)) \
E("a variable-length sequence inside a sequence is an error", IMP(NEST, RET == CYAML_ERR_SEQUENCE_IN_SEQUENCE && g.writes == 0 && g.pops == 0)) \
E("entry n is written from position n", IMP(GOOD, (uintptr_t)g.w_data - (uintptr_t)g_src == g_off)) \
E("every entry is written, once, with the entry schema", IMP(GOOD, RET == g.code && g.pops == 0 && g.writes == 1 && g.w_schema == &g_ent)) \
E("the next entry is next", IMP(GOOD, g_old_state.sequence.entry == g_i + 1 && g.seen_entry == g_i + 1)) \
E("a fixed-length entry has its schema's count", IMP(GOOD && g_ent.type == CYAML_SEQUENCE_FIXED, g.w_count == g_ent.sequence.max))
#define FN cyaml__write_sequence
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, g_old_state)

#elif defined(V_PUSH) || defined(V_POPEV)
static int g_state;
static cyaml_state_t g_stack[2];
static cyaml_schema_field_t g_field[2];
#define DELIM ((g_cfg.flags & CYAML_CFG_DOCUMENT_DELIM) != 0)
#ifdef V_PUSH
#define WROTE(t) (g.emits == 1 && g.ev_type[0] == (t))
#define KNOWN (g_state == CYAML_STATE_START || g_state == CYAML_STATE_IN_STREAM || g_state == CYAML_STATE_IN_DOC || \
	g_state == CYAML_STATE_IN_MAP_KEY || g_state == CYAML_STATE_IN_SEQUENCE)
#define OKP (KNOWN && !IOFAIL && g.mem_fails == 0)
#define CLAUSES(E) \
E("the stream starts the output", IMP(OKP && g_state == CYAML_STATE_START, WROTE(YAML_STREAM_START_EVENT))) \
E("then the document, marked if the configuration says so", IMP(OKP && g_state == CYAML_STATE_IN_STREAM, \
	WROTE(YAML_DOCUMENT_START_EVENT) && g.ev_implicit[0] == !DELIM)) \
E("then its root, for which nothing is written yet", IMP(OKP && g_state == CYAML_STATE_IN_DOC, g.emits == 0)) \
E("a mapping is started in its style", IMP(OKP && g_state == CYAML_STATE_IN_MAP_KEY, WROTE(YAML_MAPPING_START_EVENT) && g.ev_implicit[0] && \
	g.ev_style[0] == (int)COLL_STYLE(YAML_BLOCK_MAPPING_STYLE, YAML_FLOW_MAPPING_STYLE, YAML_ANY_MAPPING_STYLE))) \
E("a sequence is started in its style", IMP(OKP && g_state == CYAML_STATE_IN_SEQUENCE, WROTE(YAML_SEQUENCE_START_EVENT) && g.ev_implicit[0] && \
	g.ev_style[0] == (int)COLL_STYLE(YAML_BLOCK_SEQUENCE_STYLE, YAML_FLOW_SEQUENCE_STYLE, YAML_ANY_SEQUENCE_STYLE))) \
E("[P16,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR)) \
E("[P16,P17] running out of memory is reported", IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("nothing is entered then", IMP(!OKP, RET != CYAML_OK && g_ctx.stack_idx == 1 && g_ctx.state == &g_stack[0])) \
E("otherwise the state is entered, on top", IMP(OKP, RET == CYAML_OK && g_ctx.stack_idx == 2 && g_ctx.state == &g_stack[1] && \
	g_stack[1].state == g_state && g_stack[1].schema == &g_sch && g_stack[1].data == g_src && !g_stack[1].done)) \
E("a mapping starts at its first field", IMP(OKP && g_state == CYAML_STATE_IN_MAP_KEY, g_stack[1].mapping.field == g_field)) \
E("a sequence starts at its first entry", IMP(OKP && g_state == CYAML_STATE_IN_SEQUENCE, g_stack[1].sequence.entry == 0))
#define FN cyaml__stack_push
#define ARGS (cyaml_ctx_t *ctx, enum cyaml_state_e state, const cyaml_schema_value_t *schema, const cyaml_data_t *data)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, __CPROVER_object_whole(g_stack))
#else
#define ENDS(s, t) E2(IMP(g_state == (s) && !IOFAIL, RET == CYAML_OK && g.emits == 1 && g.ev_type[0] == (t)))
#define E2(c) (c)
#define CLAUSES(E) \
E("each state is ended by its own end", ENDS(CYAML_STATE_IN_STREAM, YAML_STREAM_END_EVENT) && ENDS(CYAML_STATE_IN_DOC, YAML_DOCUMENT_END_EVENT) && \
	ENDS(CYAML_STATE_IN_MAP_KEY, YAML_MAPPING_END_EVENT) && ENDS(CYAML_STATE_IN_SEQUENCE, YAML_SEQUENCE_END_EVENT)) \
E("the end of the document is marked if the configuration says so", IMP(g_state == CYAML_STATE_IN_DOC && !IOFAIL, g.ev_implicit[0] == !DELIM)) \
E("the bottom state has no end", IMP(g_state == CYAML_STATE_START, RET == CYAML_OK && g.inits == 0 && g.emits == 0)) \
E("[P16,P17] a failure to write is reported", IMP(IOFAIL, RET == IOERR))
#define FN cyaml__stack_pop_write_event
#define ARGS (const cyaml_ctx_t *ctx, enum cyaml_state_e state)
#define FRAME __CPROVER_assigns(GHOST)
#endif

#else /* V_START, V_STREAM, V_DOC */
static cyaml_state_t g_stack[4];
static bool g_done;
#ifdef V_START
#define CLAUSES(E) \
E("the stream is entered with the client's schema and data", g.pushes == 1 && RET == g.code && g.w_state == CYAML_STATE_IN_STREAM && \
	g.w_schema == &g_sch && g.w_data == g_src)
#define FN cyaml__write_start
#elif defined(V_STREAM)
#define CLAUSES(E) \
E("the document is entered once, with the client's schema and data", IMP(!g_done, g.pushes == 1 && g.pops == 0 && RET == g.code && \
	g.w_state == CYAML_STATE_IN_DOC && g.w_schema == &g_sch && g.w_data == g_src && g_stack[1].done)) \
E("then the stream ends", IMP(g_done, g.pushes == 0 && g.pops == 1 && g.pop_emit && RET == g.code))
#define FN cyaml__write_stream
#else
#define CLAUSES(E) \
E("the root value is written once, with the client's schema and data", IMP(!g_done, g.writes == 1 && g.pops == 0 && RET == g.code && \
	g.w_schema == &g_sch && g.w_data == g_src && g_stack[2].done)) \
E("a sequence has the count given, a fixed-length one its own", IMP(!g_done && IS_SEQ, \
	g.w_count == (T == CYAML_SEQUENCE ? g_seq : (uint64_t)g_sch.sequence.max))) \
E("then the document ends", IMP(g_done, g.writes == 0 && g.pops == 1 && g.pop_emit && RET == g.code))
#define FN cyaml__write_doc
#endif
#define ARGS (cyaml_ctx_t *ctx)
#define FRAME __CPROVER_assigns(GHOST, g_ctx, g_new_state, __CPROVER_object_whole(g_stack))
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
static cyaml_err_t FN ARGS
FRAME
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_ctx.emitter = &g_emitter;
	g_sch = (cyaml_schema_value_t){ 0 };
	g_sch.type = (cyaml_type_e)v_in_u8("schema.type");
	V_ASSUME(g_sch.type < CYAML__TYPE_COUNT);
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_sch.data_size = g_size2 = v_in_u32("schema.data_size");
	g_seq = v_in_u64("count");
	g_old_state = (cyaml_state_t){ 0 };
	g_old_state.schema = &g_sch;
	g_ctx.state = &g_old_state;
	g_ctx.stack_idx = 1;
#if defined(V_ENUM)
	g_sch.type = CYAML_ENUM;
#elif defined(V_FLAGS)
	g_sch.type = CYAML_FLAGS;
#elif defined(V_BITS)
	g_sch.type = CYAML_BITFIELD;
#endif
#if defined(V_VALUE)
	V_ASSUME(T != CYAML_ENUM);
	if (IS_SEQ) {
		g_sch.sequence.min = v_in_u32("schema.min");
		g_sch.sequence.max = v_in_u32("schema.max");
	}
#endif
#if defined(V_VALUE) || defined(V_ENUM) || defined(V_FLAGS) || defined(V_BITS)
	uint8_t *v;
	if (T == CYAML_STRING) {
		v = (uint8_t *)v_text();
	} else {
		v_slot();
		v = g_slot;
		memcpy(&g_f, v, 4);
		memcpy(&g_d, v, 8);
	}
	g_src = g_val = v;
#endif
#if defined(V_VALUE) || defined(V_ENUM)
	if (PTR) {
		g_src = malloc(8);
		V_ASSUME(g_src != NULL);
		g_val = v;
#ifdef V_VALUE
		if (v_in_bool("null")) { g_val = NULL; }
#endif
		*(uint8_t **)g_src = g_val;
	}
#endif
#if defined(V_ENUM) || defined(V_FLAGS)
	g_count = v_in_u32("table.count");
	V_ASSUME(g_count <= V_TABLE_MAX);
	g_sch.enumeration.count = g_count;
	g_tab = malloc((size_t)g_count * sizeof(*g_tab) + 1);
	g.names = malloc((size_t)g_count + 1);
	V_ASSUME(g_tab != NULL && g.names != NULL);
	g_sch.enumeration.strings = g_tab;
#elif defined(V_BITS)
	g_count = v_in_u32("table.count");
	V_ASSUME(g_count <= V_TABLE_MAX);
	g_sch.bitfield.count = g_count;
	g_bits = malloc((size_t)g_count * sizeof(*g_bits) + 1);
	g.names = malloc((size_t)g_count + 1);
	V_ASSUME(g_bits != NULL && g.names != NULL);
	g_sch.bitfield.bitdefs = g_bits;
	g_num = SZ_OK ? UVAL : 0;
	g_k = v_in_u32("tracked.field");
	if (g_k < g_count) {
		g_bits[g_k].bits = v_in_u8("bits");
		g_bits[g_k].offset = v_in_u8("offset");
		V_ASSUME(g_bits[g_k].bits >= 1 && g_bits[g_k].bits <= 64 && g_bits[g_k].offset <= 63);
	}
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_bits[k].name = g.names + k;
		if (k != g_k) {
			g_bits[k].bits = v_in_u8("bits.k");
			g_bits[k].offset = v_in_u8("offset.k");
			V_ASSUME(g_bits[k].bits >= 1 && g_bits[k].bits <= 64 && g_bits[k].offset <= 63);
		}
		g.bad = g.bad || !DEF_OK(k);
	}
#endif
#endif
#if defined(V_ENUM)
	g_first = v_in_u32("first.match");
	V_ASSUME(g_first <= g_count);
	g_num = SZ_OK ? (uint64_t)IVAL : 0;
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].str = g.names + k;
		g_tab[k].val = v_in_i64("strval.val");
		V_ASSUME(IMP(k < g_first, (uint64_t)g_tab[k].val != g_num) && IMP(k == g_first, (uint64_t)g_tab[k].val == g_num));
	}
#endif
#endif
#if defined(V_FLAGS)
	g_k = v_in_u32("tracked.name");
	if (g_k < g_count) { g_tab[g_k].val = v_in_i64("name.val"); }
	g_num = SZ_OK ? UVAL : 0;
	g_allnamed = g_num == 0;
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].str = g.names + k;
		if (k != g_k) { g_tab[k].val = v_in_i64("strval.val"); }
	}
#endif
#endif
#if defined(V_VALUE) || defined(V_ENUM)
	cyaml_err_t v_ret = cyaml__write_value(&g_ctx, &g_sch, g_src, g_seq);
#elif defined(V_FLAGS)
	cyaml_err_t v_ret = cyaml__write_flags_value(&g_ctx, &g_sch, g_src);
#elif defined(V_BITS)
	cyaml_err_t v_ret = cyaml__write_bitfield_value(&g_ctx, &g_sch, g_src);
#elif defined(V_MAP)
	g_ssize = v_in_u32("struct.size");
	V_ASSUME(g_ssize >= 8);
#ifdef V_NATIVE
	V_ASSUME(g_ssize < 0x100000);
#endif
	g_src = malloc(g_ssize);
	V_ASSUME(g_src != NULL);
	V_FILL(g_src, 3, g_ssize);
	g_end = v_in_bool("end");
	g_field[0].key = g_end ? NULL : "k";
	FT = (cyaml_type_e)v_in_u8("field.type");
	V_ASSUME(FT < CYAML__TYPE_COUNT);
	FV.flags = (enum cyaml_flag)v_in_u32("field.flags");
	g_field[0].data_offset = v_in_u32("field.offset");
	V_ASSUME((size_t)g_field[0].data_offset + 8 <= g_ssize);
	g_field[0].count_offset = v_in_u32("field.count_offset");
	g_field[0].count_size = v_in_u8("field.count_size");
	FV.sequence.min = v_in_u32("field.min");
	FV.sequence.max = v_in_u32("field.max");
	V_ASSUME(IMP(FT == CYAML_SEQUENCE && CS_OK, (size_t)g_field[0].count_offset + g_field[0].count_size <= g_ssize));
	if (v_in_bool("null")) { *(uint8_t **)(g_src + g_field[0].data_offset) = NULL; }
	g_isnull = *(uint8_t **)(g_src + g_field[0].data_offset) == NULL;
	g_sch.type = CYAML_MAPPING;
	g_old_state.state = CYAML_STATE_IN_MAP_KEY;
	g_old_state.mapping.field = g_field;
	g_old_state.data = g_src;
	cyaml_err_t v_ret = cyaml__write_mapping(&g_ctx);
#elif defined(V_SEQ)
	static uint8_t a;
	g_src = &a;
	g_i = v_in_u64("entry");
	V_ASSUME(g_i <= g_seq);
	g_ent.type = (cyaml_type_e)v_in_u8("entry.type");
	V_ASSUME(g_ent.type < CYAML__TYPE_COUNT);
	g_ent.flags = (enum cyaml_flag)v_in_u32("entry.flags");
	g_ent.data_size = v_in_u32("entry.data_size");
	g_ent.sequence.max = v_in_u32("entry.max");
	g_sch.sequence.entry = &g_ent;
#ifdef V_FIXED_ENTRY
	V_ASSUME(g_ent.type == CYAML_SEQUENCE_FIXED && g_ent.data_size <= 64 && g_ent.sequence.max <= 64 && g_i <= 64);
	g_stride = (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : (size_t)g_ent.data_size * g_ent.sequence.max;
#else
	V_ASSUME(g_ent.type != CYAML_SEQUENCE_FIXED || (g_ent.flags & CYAML_FLAG_POINTER));
	g_stride = (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) : (size_t)g_ent.data_size;
#endif
	/* the sequence is in memory */
	V_ASSUME(g_i < (uint64_t)1 << 32);
	g_off = g_stride * g_i;
	V_ASSUME(g_off < (size_t)1 << 55);
	g_old_state.state = CYAML_STATE_IN_SEQUENCE;
	g_old_state.sequence.entry = g_i;
	g_old_state.sequence.count = g_seq;
	g_old_state.data = g_src;
	cyaml_err_t v_ret = cyaml__write_sequence(&g_ctx);
#elif defined(V_PUSH) || defined(V_POPEV)
	static uint8_t a;
	g_src = &a;
	g_state = v_in_u8("state");
	V_ASSUME(g_state < CYAML_STATE__COUNT);
	V_ASSUME(IMP(g_state == CYAML_STATE_IN_MAP_KEY, T == CYAML_MAPPING));
	if (T == CYAML_MAPPING) { g_sch.mapping.fields = g_field; }
	g_stack[0] = (cyaml_state_t){ 0 };
	g_stack[1].done = v_in_bool("stale");
	g_ctx.stack = g_ctx.state = g_stack;
	g_ctx.stack_max = 2;
#ifdef V_PUSH
	cyaml_err_t v_ret = cyaml__stack_push(&g_ctx, (enum cyaml_state_e)g_state, &g_sch, g_src);
#else
	cyaml_err_t v_ret = cyaml__stack_pop_write_event(&g_ctx, (enum cyaml_state_e)g_state);
#endif
#else
	static uint8_t a;
	g_src = &a;
	g_done = v_in_bool("done");
	g_seq = (unsigned)g_seq;
	g_ctx.seq_count = (unsigned)g_seq;
	g_sch.sequence.max = v_in_u32("schema.max");
	for (unsigned k = 0; k < 3; k++) {
		g_stack[k] = (cyaml_state_t){ .state = k == 0 ? CYAML_STATE_START : k == 1 ? CYAML_STATE_IN_STREAM : CYAML_STATE_IN_DOC,
			.schema = &g_sch, .data = g_src, .done = k == 2 ? g_done : true };
	}
	g_ctx.stack = g_stack;
	g_ctx.stack_max = 4;
#ifdef V_START
	g_ctx.stack_idx = 1;
	g_ctx.state = &g_stack[0];
	cyaml_err_t v_ret = cyaml__write_start(&g_ctx);
#elif defined(V_STREAM)
	g_ctx.stack_idx = 2;
	g_ctx.state = &g_stack[1];
	g_stack[1].done = g_done;
	cyaml_err_t v_ret = cyaml__write_stream(&g_ctx);
#else
	g_ctx.stack_idx = 3;
	g_ctx.state = &g_stack[2];
	cyaml_err_t v_ret = cyaml__write_doc(&g_ctx);
#endif
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#else
	(void)v_ret;
#endif
}
