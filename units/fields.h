/* The client's mapping schema: a field table of arbitrary size, terminated by a
 * NULL key (fewer than 0xffff fields). */
#define V_FIELDS
static cyaml_schema_field_t *g_tab;
static uint32_t g_count;
static size_t g_first;
static size_t g_walk;   /* ghost: entries stepped over by a walk of the table */
/* The layout of the table (names in order, then the terminator), instantiated
 * at the entry a loop head is looking at. */
static inline int v_head(const cyaml_schema_field_t *f, size_t k)
{
#if defined(V_CBMC) && !defined(V_BOUNDED)
	V_ASSERT("loop instantiation is about the entry looked at", f == g_tab + k);
	V_ASSUME(IMP(k < g_count, f->key == g.names + k));
#else
	(void)f; (void)k;
#endif
	return 0;
}
