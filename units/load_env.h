/* Shared set-up for the load units: configuration, context, event, schema. */
#ifndef V_LOAD_ENV_H
#define V_LOAD_ENV_H

static cyaml_config_t g_cfg;
#ifndef V_NO_CTX
static cyaml_ctx_t g_ctx;
#endif
static int g_vctx_obj, g_mctx_obj;

/* ---- validation callbacks ------------------------------------------------ */

static inline bool v_cb_common(void *c, const cyaml_schema_value_t *s)
{
	g.cb_calls++;
	g.cb_ctx = c;
	g.cb_schema = s;
	g.cb_ret = v_in_bool("cb.accept");
	return g.cb_ret;
}
static bool v_cb_int(void *c, const cyaml_schema_value_t *s, int64_t v)
{ g.cb_i = v; return v_cb_common(c, s); }
static bool v_cb_uint(void *c, const cyaml_schema_value_t *s, uint64_t v)
{ g.cb_u = v; return v_cb_common(c, s); }
static bool v_cb_float(void *c, const cyaml_schema_value_t *s, double v)
{ g.cb_d = v; return v_cb_common(c, s); }
static bool v_cb_string(void *c, const cyaml_schema_value_t *s, const char *v)
{ g.cb_ptr = v; return v_cb_common(c, s); }
static bool v_cb_mapping(void *c, const cyaml_schema_value_t *s,
		const cyaml_data_t *v)
{ g.cb_ptr = v; return v_cb_common(c, s); }
static bool v_cb_sequence(void *c, const cyaml_schema_value_t *s,
		const cyaml_data_t *v, size_t n)
{ g.cb_ptr = v; g.cb_count = n; return v_cb_common(c, s); }

/* The client's validator is consulted on exactly this schema and context. */
#define CB_OK_ARGS (g.cb_schema == schema && g.cb_ctx == (void *)&g_vctx_obj)

static void v_log(cyaml_log_t level, void *ctx, const char *fmt, va_list args)
{
	(void)level; (void)ctx; (void)fmt; (void)args;
}

static void v_env_init(void)
{
	g = (struct v_ghost){ 0 };
	g.mem_ctx = &g_mctx_obj;
	g_cfg = (cyaml_config_t){ 0 };
#ifndef V_NO_CTX
	g_ctx = (cyaml_ctx_t){ 0 };
	g_ctx.config = &g_cfg;
#endif
	g_cfg.log_fn = v_in_bool("cfg.log") ? v_log : NULL;
	g_cfg.log_level = (cyaml_log_t)v_in_u8("cfg.log_level");
	g_cfg.mem_fn = v_mem;
	g_cfg.mem_ctx = g.mem_ctx;
	g_cfg.flags = (cyaml_cfg_flags_t)v_in_u32("cfg.flags");
	g_cfg.validation_ctx = &g_vctx_obj;
}

/* ---- the scalar text ------------------------------------------------------ */
/* Arbitrary length, arbitrary non-NUL bytes; the first 6 bytes are named
 * inputs so that a counterexample can be replayed. */
static void v_text_byte(char *value, size_t len, size_t k)
{
	char c = (char)v_in_u8("value.byte");
	if (k < len) {
		V_ASSUME(c != 0);
		value[k] = c;
	}
}
static char *v_text(void)
{
	size_t len = (size_t)v_in_u64("value.len");
	V_ASSUME(len <= V_STR_MAX);
	char *value = malloc(len + 1);
	V_ASSUME(value != NULL);
	V_FILL(value, '1', len);
	v_text_byte(value, len, 0);
	v_text_byte(value, len, 1);
	v_text_byte(value, len, 2);
	v_text_byte(value, len, 3);
	v_text_byte(value, len, 4);
	v_text_byte(value, len, 5);
	value[len] = '\0';
	g.value = value;
	g.value_len = len;
	return value;
}

/* Several texts one after the other (collection units): up to 7 bytes in one
 * 8 byte buffer that is rewritten for each text.  The code under these units
 * reaches the text only through number parsing and name comparison, whose
 * contracts do not depend on its length. */
#ifndef V_TEXT_BUF
#define V_TEXT_BUF
static char g_buf[8];
#endif
static char *v_text_reuse(void)
{
	size_t len = v_in_u8("value.len");
	V_ASSUME(len <= 7);
#define B(k) { char c = (char)v_in_u8("value.byte"); \
	V_ASSUME(IMP(k < len, c != 0)); g_buf[k] = k < len ? c : 0; }
	B(0) B(1) B(2) B(3) B(4) B(5) B(6)
#undef B
	g_buf[7] = 0;
	g.value = g_buf;
	g.value_len = len;
	return g_buf;
}

#if !defined(V_NO_CTX) && !defined(V_NO_EVENTS)
static yaml_event_t v_scalar_event(void)
{
	yaml_event_t event = { 0 };
	event.type = YAML_SCALAR_EVENT;
	event.data.scalar.value = (yaml_char_t *)v_text();
	event.data.scalar.length = g.value_len;
	return event;
}
#endif

/* Script the outcome of unsigned number parsing together with the text. */
static void v_script_number(void)
{
	g.num_pre = true;
	g.num_called = false;
	g.num_used = (size_t)v_in_u64("num.used");
	V_ASSUME(g.num_used <= g.value_len);
	V_ASSUME(g.num_used == g.value_len || g.value[g.num_used] != '\0');
	g.num_wellformed = g.num_used > 0 && g.num_used == g.value_len;
	g.num_range = v_in_bool("num.erange");
	V_ASSUME(!(g.num_range && g.num_used == 0));
	g.num_neg = g.value_len > 1 && g.value[0] == '-';
	g.num_ull = v_in_u64("num.ull");
	V_ASSUME(IMP(g.num_used == 0, g.num_ull == 0));
	V_ASSUME(IMP(g.num_range, g.num_ull == UINT64_MAX));
}
#define PRE_NUM_OK (g.num_wellformed && !g.num_range && (!g.num_neg || g.num_ull == 0))

/* ---- the member being loaded ---------------------------------------------- */
static uint8_t g_old[8];
static uint8_t *g_slot;      /* where the member lives in the client's struct */
static bool g_is_ptr;
static uint32_t g_size;

static void v_slot(void)
{
	g_slot = malloc(8);
	V_ASSUME(g_slot != NULL);
#define B(k) g_slot[k] = g_old[k] = v_in_u8("slot");
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
}
/* Flags of a scalar value: anything but the NULL-literal flags, which have
 * their own unit. */
static void v_scalar_schema(cyaml_schema_value_t *s, cyaml_type_e type)
{
	s->type = type;
	s->flags = (enum cyaml_flag)v_in_u32("schema.flags");
	V_ASSUME(((unsigned)s->flags & ~(unsigned)CYAML_FLAG_POINTER &
			(unsigned)CYAML_FLAG_POINTER_NULL_STR) == 0);
	s->data_size = g_size = v_in_u32("schema.data_size");
	g_is_ptr = (s->flags & CYAML_FLAG_POINTER) != 0;
}
/* The object the value has to end up in. */
#define TARGET (g_is_ptr ? (uint8_t *)g.mem_last : g_slot)
#define SAME_SLOT (g_slot[0] == g_old[0] && g_slot[1] == g_old[1] && \
		g_slot[2] == g_old[2] && g_slot[3] == g_old[3] && \
		g_slot[4] == g_old[4] && g_slot[5] == g_old[5] && \
		g_slot[6] == g_old[6] && g_slot[7] == g_old[7])
#define SLOT_PTR (*(uint8_t **)g_slot)

#ifdef V_NAME_TABLE
/* Set up a name table of arbitrary size and the first match in it. */
static void v_name_table(uint64_t count)
{
	char *names = malloc(count + 1);
	V_ASSUME(names != NULL);
	V_FILL(names, 0, count + 1);
	g.names = names;
	g.r[0] = (size_t)v_in_u64("first.match.sensitive");
	g.r[1] = (size_t)v_in_u64("first.match.insensitive");
	/* a name equal to the text also matches it case-insensitively */
	V_ASSUME(g.r[0] <= count && g.r[1] <= g.r[0]);
}
static cyaml_strval_t *v_strvals(uint32_t count)
{
	cyaml_strval_t *t = malloc((size_t)count * sizeof(*t) + 1);
	V_ASSUME(t != NULL);
	v_name_table(count);
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < count; k++) {
		t[k].str = g.names + k;
		t[k].val = v_in_i64("strval.val");
	}
#endif
	return t;
}
#endif

#ifdef V_FIELDS
static void v_fields(cyaml_schema_value_t *s)
{
	g_count = v_in_u16("schema.fields");
	V_ASSUME(g_count < 0xffff);
#ifdef V_BOUNDED
	V_ASSUME(g_count <= V_N);
#elif defined(V_SMALL)
	V_ASSUME(g_count <= 100);
#endif
	g_tab = malloc(((size_t)g_count + 1) * sizeof(*g_tab));
	V_ASSUME(g_tab != NULL);
	V_FILL(g_tab, 0, ((size_t)g_count + 1) * sizeof(*g_tab));
#ifdef V_NAME_TABLE
	v_name_table(g_count);
	g_first = g.r[V_INSENSITIVE(&g_cfg, s)];
#else
	g.names = malloc((size_t)g_count + 1);
	V_ASSUME(g.names != NULL);
#endif
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].key = g.names + k;
	}
#endif
	g_tab[g_count].key = NULL;
	g_walk = 0;
	s->mapping.fields = g_tab;
}
#endif

/* Clauses common to every scalar type. */
#define SCALAR_CLAUSES(E) \
E("[P10] allocation failure gives OOM", \
	IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("a rejected value leaves an embedded member untouched", \
	IMP(RET != CYAML_OK && !g_is_ptr, SAME_SLOT)) \
E("an embedded member needs no allocation", \
	IMP(!g_is_ptr, g.mem_allocs == 0)) \
E("[P10] an allocation made is always reachable from the member", \
	IMP(g_is_ptr && g.mem_allocs != 0, g.mem_allocs == 1 && SLOT_PTR == g.mem_last)) \
E("a pointer member is untouched when nothing was allocated", \
	IMP(g_is_ptr && g.mem_allocs == 0, SAME_SLOT)) \
E("nothing is freed", g.mem_frees == 0)

/* Value of a little/big endian integer member of 1..8 bytes. */
static inline uint64_t spec_uint_at(const uint8_t *p, uint64_t size)
{
	uint64_t r = 0;
	const uint16_t one = 1;
	bool le = *(const uint8_t *)&one == 1;
#define B(k) if (k < size) { r |= (uint64_t)p[k] << (8 * (le ? k : size - 1 - k)); }
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
	return r;
}
static inline int64_t spec_int_at(const uint8_t *p, uint64_t size)
{
	uint64_t r = spec_uint_at(p, size);
	if (size < 8 && size > 0 && ((r >> (8 * size - 1)) & 1)) {
		r |= ~(uint64_t)0 << (8 * size);
	}
	return (int64_t)r;
}
#define SIZE_OK(n) ((n) >= 1 && (n) <= 8)
#endif

