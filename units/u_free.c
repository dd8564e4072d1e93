/*
 * free.c, function by function: V_VALUE cyaml__free_value, V_SEQ
 * cyaml__free_sequence, V_MAP cyaml__free_mapping, V_TOP cyaml_free.
 * The recursive calls are checked against the callee's contract: "everything
 * the schema reaches from `data` is released once" (induction over the data).
 */
#define V_UNIT_GHOSTS uint64_t visits; unsigned frees; bool bad; \
	const cyaml_schema_value_t *w_schema; uint8_t *w_data; uint64_t w_count; void *freed; \
	unsigned freed_at; unsigned maps, seqs, values; uint64_t vi; size_t vd;
#define V_NO_CTX
#include "common.h"
#include "libc_model.h"
#include "fields.h"
static uint8_t *g_base;
static size_t g_bsize;
static cyaml_schema_value_t g_sch, g_ent;
static uint64_t g_k;
static uint8_t *g_tdata;
static uint64_t g_tcount;
static size_t g_stride;
/* A client's schema keeps the count member inside the client's structure. */
#define FIELD_OK(f) ((f).value.type != CYAML_SEQUENCE || ((f).count_size >= 1 && (f).count_size <= 8 && \
	(size_t)(f).count_offset + (f).count_size <= g_bsize))
#include "free.c"
#include "load_env.h"

static void *v_fmem(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("allocator gets the client's mem_ctx", ctx == g.mem_ctx);
	V_ASSERT("freeing never allocates", size == 0);
	g.frees++;
	g.freed = ptr;
	g.freed_at = g.maps + g.seqs;
	return NULL;
}

#ifndef V_VALUE
/* contract of cyaml__free_value: any effect on the data, reached once */
static void cyaml__free_value(const cyaml_config_t *cfg, const cyaml_schema_value_t *schema,
		uint8_t *data, uint64_t count)
{
	V_ASSERT("the client's configuration is used throughout", cfg == &g_cfg);
#if defined(V_SEQ)
	V_ASSERT("entries are released in order, once each, with the entry schema",
#if defined(V_CBMC) && !defined(V_BOUNDED)
		/* vi, vd: the loop's own counter and step, so that the product is the same term */
		data == g_base + g.vd * g.vi && g.vd == g_stride && g.vi == g.visits &&
#else
		data == g_base + g_stride * g.visits &&
#endif
		schema == &g_ent);
	(void)count;
	g.visits++;
#elif defined(V_MAP)
	V_ASSERT("fields are released in order, once each, with their own schema",
		schema == &g_tab[g_walk - 1].value);
	V_ASSERT("a field is released at its own place in the structure",
		data == g_base + g_tab[g_walk - 1].data_offset);
	V_ASSERT("a sequence field is released up to its count",
		schema->type != CYAML_SEQUENCE ||
		count == spec_uint_at(g_base + g_tab[g_walk - 1].count_offset, g_tab[g_walk - 1].count_size));
	if (g_walk - 1 == g_k) { g.visits++; }
#else
	g.values++;
	g.w_schema = schema;
	g.w_data = data;
	g.w_count = count;
	if (schema->flags & CYAML_FLAG_POINTER) { g.freed = *(uint8_t **)data; }
#endif
}
#else
static void cyaml__free_mapping(const cyaml_config_t *cfg, const cyaml_schema_value_t *schema,
		uint8_t *const data)
{
	V_ASSERT("the client's configuration is used throughout", cfg == &g_cfg);
	g.maps++; g.w_schema = schema; g.w_data = data;
}
static void cyaml__free_sequence(const cyaml_config_t *cfg, const cyaml_schema_value_t *schema,
		uint8_t *const data, uint64_t count)
{
	V_ASSERT("the client's configuration is used throughout", cfg == &g_cfg);
	g.seqs++; g.w_schema = schema; g.w_data = data; g.w_count = count;
}
#endif

#define T (g_sch.type)
#if defined(V_VALUE)
#define PTR ((g_sch.flags & CYAML_FLAG_POINTER) != 0)
#define REACHED (!PTR || g_tdata != NULL)
#define IS_SEQ (T == CYAML_SEQUENCE || T == CYAML_SEQUENCE_FIXED)
#define CLAUSES(E) \
E("a NULL pointer is skipped", IMP(!REACHED, g.frees == 0 && g.maps == 0 && g.seqs == 0)) \
E("a pointer's block is freed, once, after everything it refers to", \
	IMP(PTR && REACHED, g.frees == 1 && g.freed == (void *)g_tdata && g.freed_at == g.maps + g.seqs)) \
E("nothing is freed for a value that is not a pointer", IMP(!PTR, g.frees == 0)) \
E("the fields of a mapping are released, once", g.maps == (REACHED && T == CYAML_MAPPING ? 1 : 0)) \
E("the entries of a sequence are released, once", g.seqs == (REACHED && IS_SEQ ? 1 : 0)) \
E("the contents are looked for where the value is", \
	IMP(g.maps + g.seqs != 0, g.w_schema == &g_sch && g.w_data == (PTR ? g_tdata : g_base))) \
E("a variable-length sequence has the count given, a fixed-length one its own", \
	IMP(g.seqs != 0, g.w_count == (T == CYAML_SEQUENCE ? g_tcount : g_sch.sequence.max)))
#define FN cyaml__free_value
#define ARGS (const cyaml_config_t *cfg, const cyaml_schema_value_t *schema, uint8_t *data, uint64_t count)
#define RT static void
#elif defined(V_SEQ)
#define CLAUSES(E) \
E("every entry up to the count is released exactly once", g.visits == g_tcount) \
E("the block that holds the entries is left to the caller", g.frees == 0)
#define FN cyaml__free_sequence
#define ARGS (const cyaml_config_t *cfg, const cyaml_schema_value_t *schema, uint8_t *const data, uint64_t count)
#define RT static void
#elif defined(V_MAP)
#define CLAUSES(E) \
E("every field is released exactly once", IMP(g_k < g_count, g.visits == 1)) \
E("fields are only released as many times as they occur", IMP(g_k >= g_count, g.visits == 0)) \
E("the block that holds the fields is left to the caller", g.frees == 0)
#define FN cyaml__free_mapping
#define ARGS (const cyaml_config_t *cfg, const cyaml_schema_value_t *schema, uint8_t *const data)
#define RT static void
#else
static bool g_nocfg, g_nomem, g_nosch;
#define BADP (g_nocfg || g_nomem || g_nosch)
#define CLAUSES(E) \
E("[P20] a missing configuration is reported", IMP(g_nocfg, RET == CYAML_ERR_BAD_PARAM_NULL_CONFIG)) \
E("[P20] a configuration without allocator is reported", IMP(!g_nocfg && g_nomem, RET == CYAML_ERR_BAD_CONFIG_NULL_MEMFN)) \
E("[P20] a missing schema is reported", IMP(!g_nocfg && !g_nomem && g_nosch, RET == CYAML_ERR_BAD_PARAM_NULL_SCHEMA)) \
E("[P20] nothing is released when a parameter is bad", IMP(BADP, g.values == 0 && g.frees == 0)) \
E("[P19,P20] anything else succeeds", IMP(!BADP, RET == CYAML_OK)) \
E("[P19] the whole data is released, once, with the client's schema", \
	IMP(!BADP, g.values == 1 && g.w_schema == &g_sch && g.frees == 0)) \
E("[P19] top level data that the client allocated is released as a pointer to it", \
	IMP(!BADP, (g_sch.flags & CYAML_FLAG_POINTER) ? g.freed == (void *)g_base : g.w_data == g_base)) \
E("[P19] the client's count of a top level sequence is used", IMP(!BADP, g.w_count == g_tcount))
#define FN cyaml_free
#define ARGS (const cyaml_config_t *cfg, const cyaml_schema_value_t *schema, cyaml_data_t *data, unsigned seq_count)
#define RT cyaml_err_t
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
RT FN ARGS
#ifdef V_MAP
__CPROVER_assigns(GHOST, g_walk)
#else
__CPROVER_assigns(GHOST)
#endif
CLAUSES(V_ENS)
;
#undef RET
#endif

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_fmem;
	g_sch = (cyaml_schema_value_t){ 0 };
	g_ent = (cyaml_schema_value_t){ 0 };
	g_sch.type = (cyaml_type_e)v_in_u8("schema.type");
	V_ASSUME(g_sch.type < CYAML__TYPE_COUNT);
	g_sch.flags = (enum cyaml_flag)v_in_u32("schema.flags");
	g_sch.data_size = v_in_u32("schema.data_size");
	g_tcount = v_in_u64("count");
#if defined(V_VALUE)
	static uint8_t block[8];
	g_tdata = v_in_bool("null") ? NULL : block;
	g_base = malloc(8);
	V_ASSUME(g_base != NULL);
	*(uint8_t **)g_base = g_tdata;
	if (g_sch.type == CYAML_SEQUENCE_FIXED) { g_sch.sequence.max = v_in_u32("schema.max"); }
	cyaml__free_value(&g_cfg, &g_sch, g_base, g_tcount);
#elif defined(V_SEQ)
	static uint8_t block[8];
	g_base = block;
	g_ent.type = (cyaml_type_e)v_in_u8("entry.type");
	V_ASSUME(g_ent.type < CYAML__TYPE_COUNT);
	g_ent.flags = (enum cyaml_flag)v_in_u32("entry.flags");
	g_ent.data_size = v_in_u32("entry.data_size");
	g_ent.sequence.max = v_in_u32("entry.max");
	g_sch.sequence.entry = &g_ent;
#if defined(V_BOUNDED) || defined(V_NATIVE)
	V_ASSUME(g_tcount <= 3);
#endif
	g_stride = (g_ent.flags & CYAML_FLAG_POINTER) ? sizeof(void *) :
		(size_t)g_ent.data_size;
	if (!(g_ent.flags & CYAML_FLAG_POINTER) && g_ent.type == CYAML_SEQUENCE_FIXED) {
		g_stride *= g_ent.sequence.max;
	}
	cyaml__free_sequence(&g_cfg, &g_sch, g_base, g_tcount);
#elif defined(V_MAP)
	v_fields(&g_sch);
	g_k = v_in_u32("tracked.field");
	size_t size = v_in_u32("struct.size");
	g_base = malloc(size);
	V_ASSUME(g_base != NULL);
	g_bsize = size;
#ifdef V_INIT_TABLE
	for (uint32_t k = 0; k < g_count; k++) {
		g_tab[k].value.type = (cyaml_type_e)v_in_u8("field.type");
		g_tab[k].value.flags = (enum cyaml_flag)v_in_u32("field.flags");
		g_tab[k].data_offset = v_in_u32("field.offset");
		g_tab[k].count_offset = v_in_u32("field.count_offset");
		g_tab[k].count_size = v_in_u8("field.count_size");
		V_ASSUME(g_tab[k].value.type < CYAML__TYPE_COUNT);
		V_ASSUME(FIELD_OK(g_tab[k]));
	}
#endif
	cyaml__free_mapping(&g_cfg, &g_sch, g_base);
#else
	static uint8_t block[8];
	g_base = block;
	g_nocfg = v_in_bool("null.config");
	g_nomem = v_in_bool("null.mem_fn");
	g_nosch = v_in_bool("null.schema");
	if (g_nomem) { g_cfg.mem_fn = NULL; }
	g_tcount = (unsigned)g_tcount;
	cyaml_err_t v_ret = cyaml_free(g_nocfg ? NULL : &g_cfg, g_nosch ? NULL : &g_sch, g_base, (unsigned)g_tcount);
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_ENS)
#endif
}
