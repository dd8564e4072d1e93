/*
 * The event source: anchors, aliases, recording and replay.
 *   V_NEXT    cyaml_get_next_event            V_DEL     cyaml__delete_yaml_event
 *   V_ALIAS   cyaml__handle_alias (loop contract, any number of anchors)
 *   V_REPLAY  cyaml__handle_replay            V_ANCHOR  cyaml__handle_anchor
 *   V_RECORD  cyaml__handle_record            V_UPDATE  cyaml__update_anchor_recordings
 *   V_RPUSH   cyaml__record_stack_push        V_RPOP    cyaml__record_stack_pop
 *   V_NEWA    cyaml__new_anchor
 *   V_FREE    cyaml__free_recording (loop contracts, any number of entries)
 *
 * Data invariant of a recording, preserved by every function here: every
 * events[i] is below data_count; a completed anchor has start <= end <
 * events_count; progress_count is 0 iff stack_count is 0; every event is owned
 * by exactly one of the current event and data[].
 */
#define V_UNIT_GHOSTS \
	unsigned parses, dels, aliases, replays, records, anchors, updates, rpushes, rpops, cpy, fp, fc, fd, farr[5]; bool parse_failed, ev_live, rec_replayed, seen_owned, seen_active; \
	cyaml_err_t code; uint32_t rec_idx; int rec_type; const void *rec_val, *w_event; uint32_t upd_idx; bool upd_moved; void *old_arr; size_t old_count; size_t k; bool grown;
/* Verifier only: pad to a power of two, so that indexing is a shift. */
#if defined(V_CBMC)
#define yaml_event_s __attribute__((aligned(128))) yaml_event_s
#define cyaml_anchor __attribute__((aligned(32))) cyaml_anchor
#endif
#define V_OWN_MEMCPY
#define V_OWN_MEMSET
#include <yaml.h>
#define V_LOG_TEXTS
#include "common.h"
#include "libc_model.h"

static size_t g_w;
#ifdef V_CBMC
static void *v_own_memcpy(void *d, const void *s, size_t n)
{
#ifdef V_ANCHOR
	return v_memcpy(d, s, n);
#endif
	V_ASSERT("[P11] whole events are copied", n == sizeof(yaml_event_t));
	V_ASSERT("memcpy source is readable", V_R_OK(s, n));
	V_ASSERT("memcpy target is writable", V_W_OK(d, n));
	((uint64_t *)d)[g_w] = ((const uint64_t *)s)[g_w];   /* any one word: g_w is arbitrary */
	return d;
}
#endif
#ifdef V_CBMC
static size_t g_toff;      /* offset of the tracked entry in the array just grown, or SIZE_MAX */
/* Clearing (part of) an array just grown: the tracked entry loses its value when
 * it is hit; of the rest only the last entry's first word is cleared (fresh
 * memory has arbitrary content otherwise). */
static void *v_own_memset(void *p, int c, size_t n)
{
	if (n == 0) { return p; }
	V_ASSERT("memset target is writable", V_W_OK(p, n));
	V_ASSERT("only memory just allocated is cleared", V_SAME_OBJECT(p, g.mem_last) && c == 0);
	size_t off = (size_t)((uintptr_t)p - (uintptr_t)g.mem_last);
	if (g_toff != SIZE_MAX && g_toff >= off && g_toff - off < n) { ((char *)g.mem_last)[g_toff] = (char)v_in_u8("cleared"); }
#if defined(V_NEWA)
	if (n >= 32 && off + n == g.mem_last_size) { *(char **)((char *)g.mem_last + (g.mem_last_size - 32)) = NULL; }
#endif
	return p;
}
#endif
static uint32_t g_pc, g_cc, g_ec, g_dc, g_sc;   /* counts before */
static size_t g_k;                              /* tracked entry */
static size_t g_last;                           /* 1 + last anchor of the alias's name, or 0 */
static char *g_alias; static size_t g_alen;
static char g_pnames[1], g_cnames[1];           /* addresses only */

#if defined(V_ALIAS)
/* Name k is g.names + k (an address); names[g_last - 1] is the alias's, later
 * ones are not.  Comparing a prefix of different names may go either way. */
static int v_name_cmp(const void *a, const void *b, size_t n, bool whole)
{
	const char *nm = a == (const void *)g_alias ? b : a;
	V_ASSERT("[P11] anchors are compared with the alias", a == (const void *)g_alias || b == (const void *)g_alias);
	size_t idx = (size_t)((uintptr_t)nm - (uintptr_t)g.names);
	V_ASSERT("[P11] only completed anchors are considered", idx < g_cc);
	V_ASSERT("[P11] names are compared within their length", whole || n <= g_alen + 1);
	if (idx + 1 == g_last) { return 0; }
	if (idx + 1 > g_last && (whole || n > g_alen || g.k == g_alen)) { return v_in_bool("cmp.order") ? 1 : -1; }
	return v_in_bool("cmp.prefix") ? 0 : 1;
}
static int v_memcmp(const void *a, const void *b, size_t n) { return v_name_cmp(a, b, n, false); }
static int v_strcmp(const char *a, const char *b) { return v_name_cmp(a, b, 0, true); }
#undef memcmp
#undef strcmp
#define memcmp v_memcmp
#define strcmp v_strcmp
#endif
#if defined(V_NEXT) || defined(V_DEL) || defined(V_FREE)
static void v_event_delete(yaml_event_t *e);
static int v_parse(yaml_parser_t *p, yaml_event_t *e);
#define yaml_event_delete v_event_delete
#define yaml_parser_parse v_parse
#endif
#if defined(V_ALIAS) || defined(V_FREE)
#define INST(arr, i) V_ASSUME((arr)[i].name == g.names + (i))
#endif

#include "load.c"
#include "load_env.h"

#define REC (g_ctx.event_ctx.record)
#define RPL (g_ctx.event_ctx.replay)
#define EV (g_ctx.event_ctx.event)
#define EVT (g_ev.type)
#define IS_START(t) ((t) == YAML_SEQUENCE_START_EVENT || (t) == YAML_MAPPING_START_EVENT)
#define IS_END(t) ((t) == YAML_SEQUENCE_END_EVENT || (t) == YAML_MAPPING_END_EVENT)
static yaml_event_t g_ev, g_ev2;
static yaml_parser_t g_parser;
static uint32_t g_idx, g_start, g_end;
static bool g_active, g_owned, g_flag;
static cyaml_anchor_t *g_pa, *g_ca;
static cyaml_anchor_t g_pk, g_ck, g_plast;
static uint32_t *g_ea, *g_sa, g_ek, g_sk, g_stop, g_eidx;
static yaml_event_t *g_da;
static uint64_t g_dk;     /* a tracked word of a tracked recorded event */
#define NW (sizeof(yaml_event_t) / 8)
#define WORD(e) (((const uint64_t *)(e))[g_w])

/* growing moves an array: what is at the old place is not to be used any more */
#ifdef V_CBMC
#define V_STALE(x) { typeof(x) v_nondet; (x) = v_nondet; }
#else
#define V_STALE(x)
#endif
/* ---- allocator that grows arrays: moves them, keeping a tracked entry ------ */
static void *v_grow(void *ctx, void *ptr, size_t size)
{
	V_ASSERT("[P10] allocator gets the client's mem_ctx", ctx == g.mem_ctx);
#if defined(V_FREE)
	V_ASSERT("[P10] nothing is allocated here", size == 0);
	if (ptr == NULL) { return NULL; }
	if ((uintptr_t)ptr >= (uintptr_t)g.names && (uintptr_t)ptr - (uintptr_t)g.names < g_pc) {
		V_ASSERT("[P10] anchors in progress are still there when their names are freed", g.farr[0] == 0);
		if ((uintptr_t)ptr - (uintptr_t)g.names == g_k) { g.fp += g.fp < 9; }
	} else if ((uintptr_t)ptr >= (uintptr_t)g_alias && (uintptr_t)ptr - (uintptr_t)g_alias < g_cc) {
		V_ASSERT("[P10] completed anchors are still there when their names are freed", g.farr[1] == 0);
		if ((uintptr_t)ptr - (uintptr_t)g_alias == g_k) { g.fc += g.fc < 9; }
	} else {
		int n = ptr == (void *)g_pa ? 0 : ptr == (void *)g_ca ? 1 : ptr == (void *)g_da ? 2 : ptr == (void *)g_ea ? 3 : ptr == (void *)g_sa ? 4 : -1;
		V_ASSERT("[P10] only parts of the recording are freed", n >= 0);
		if (n >= 0) {
			V_ASSERT("[P10] each array is freed once", g.farr[n] == 0);
			g.farr[n] = 1;
		}
	}
	return NULL;
#else
	V_ASSERT("[P10] nothing is freed here", size != 0);
	if (v_in_bool("mem.fail")) { g.mem_fails++; return NULL; }
	char *p = malloc(size);
	V_ASSUME(p != NULL);
	V_FILL(p, 0x55, size);
	g.mem_allocs++;
	g.mem_last = p;
	g.mem_last_size = size;
#ifdef V_CBMC
	g_toff = SIZE_MAX;
#define TOFF(o) g_toff = (o);
#else
#define TOFF(o)
#endif
	if (ptr != NULL) {
#define MOVE(arr, n, T) if (ptr == (void *)(arr)) { V_ASSERT("[P11] an array only grows", size >= ((size_t)(n) + 1) * sizeof(T)); \
		if (g_k < (n)) { *(T *)(p + g_k * sizeof(T)) = (arr)[g_k]; V_STALE((arr)[g_k]) TOFF(g_k * sizeof(T)) } }
		MOVE(g_pa, g_pc, cyaml_anchor_t)
		else MOVE(g_ca, g_cc, cyaml_anchor_t)
		else MOVE(g_ea, g_ec, uint32_t)
		else MOVE(g_sa, g_sc, uint32_t)
		else if (ptr == (void *)g_da) {
			V_ASSERT("[P11] an array only grows", size >= ((size_t)g_dc + 1) * sizeof(yaml_event_t));
			if (g_k < g_dc) { ((uint64_t *)p)[g_k * NW + g_w] = ((uint64_t *)g_da)[g_k * NW + g_w]; TOFF((g_k * NW + g_w) * 8) }
		}
		else { V_ASSERT("[P10] only parts of the recording are grown", false); }
#ifdef V_NATIVE
		free(ptr);
#endif
	}
	return p;
#endif
}

/* ---- replaced callees ------------------------------------------------------ */
#if defined(V_NEXT) || defined(V_DEL) || defined(V_FREE)
static void v_event_delete(yaml_event_t *e)
{
#ifdef V_FREE
	V_ASSERT("[P10] recorded events are still there when they are deleted", g.farr[2] == 0);
	size_t off = (size_t)((uintptr_t)e - (uintptr_t)g_da);
	V_ASSERT("[P10] only recorded events are deleted", off < (size_t)g_dc * sizeof(yaml_event_t));
	if (off == g_k * sizeof(yaml_event_t)) { g.fd += g.fd < 9; }
#else
	V_ASSERT("[P10,P11] only a live event is deleted, once", e == &EV && g.ev_live);
	g.ev_live = false;
	g.dels++;
	EV.type = (yaml_event_type_t)v_in_u8("deleted");
	EV.data.scalar.value = NULL;
#endif
}
static int v_parse(yaml_parser_t *p, yaml_event_t *e)
{
#ifdef V_NEXT
	V_ASSERT("[P10,P11] the event replaced has been deleted", !g.ev_live);
	V_ASSERT("[P11] this load's parser is read, into the current event", p == &g_parser && e == &EV);
	g.parses++;
	g.parse_failed = v_in_bool("parse.fail");
	p->problem = v_in_bool("parser.problem") ? "p" : NULL;
	if (g.parse_failed) { return 0; }
	*e = g_ev;
	g.ev_live = true;
#endif
	return 1;
}
#endif
#if defined(V_NEXT)
static cyaml_err_t cyaml__handle_alias(cyaml_ctx_t *ctx, const yaml_event_t *event)
{
	V_ASSERT("[P11] only aliases are looked up, while they exist", ctx == &g_ctx && event == &EV && g.ev_live && event->type == YAML_ALIAS_EVENT);
	g.aliases++;
	g.code = v_err("alias.result");
	if (g.code == CYAML_OK) { RPL.active = true; }
	return g.code;
}
static void cyaml__handle_replay(cyaml_ctx_t *ctx, yaml_event_t *event_out, uint32_t *event_index_out)
{
	V_ASSERT("[P11] replay happens only while active", ctx == &g_ctx && RPL.active);
	V_ASSERT("[P10,P11] no live event is overwritten", !g.ev_live);
	g.replays++;
	*event_out = g_ev2;
	*event_index_out = g_idx;
	if (v_in_bool("replay.done")) { RPL.active = false; }
}
static cyaml_err_t cyaml__handle_record(cyaml_ctx_t *ctx, const yaml_event_t *event, bool replayed_event, uint32_t replay_event_index)
{
	V_ASSERT("[P11] it is the current event that is recorded", ctx == &g_ctx && event == &EV);
	V_ASSERT("[P10,P11] ownership is known when recording", g_ctx.event_ctx.have_event == g.ev_live);
	g.records++;
	g.rec_replayed = replayed_event;
	g.rec_idx = replay_event_index;
	g.rec_type = event->type;
	g.rec_val = event->data.scalar.value;
	g.code = v_err("record.result");
	if (!replayed_event && v_in_bool("record.moved")) { g_ctx.event_ctx.have_event = false; g.ev_live = false; g.upd_moved = true; }
	return g.code;
}
#endif
#if defined(V_ANCHOR) || defined(V_RPOP)
/* contract of cyaml__new_anchor (V_NEWA): one more entry, cleared; the others stay */
static cyaml_err_t cyaml__new_anchor(cyaml_ctx_t *ctx, uint32_t *anchors_count, cyaml_anchor_t **anchors)
{
	V_ASSERT("[P11] an array grows together with its own count", ctx == &g_ctx && ((anchors_count == &REC.progress_count && anchors == &REC.progress) ||
		(anchors_count == &REC.complete_count && anchors == &REC.complete)));
	V_ASSERT("[P11] one anchor is added", g.anchors == 0);
	if (v_in_bool("new.fail")) { g.mem_fails++; return CYAML_ERR_OOM; }
	g.anchors++;
	cyaml_anchor_t *p = malloc(((size_t)*anchors_count + 1) * sizeof(*p));
	V_ASSUME(p != NULL);
	V_FILL(p, 0, ((size_t)*anchors_count + 1) * sizeof(*p));
#ifdef V_RPOP
	V_ASSERT("[P11] it is a completed anchor", anchors == &REC.complete);
	if (g_k < g_cc) { p[g_k] = g_ck; }
#endif
	p[*anchors_count] = (cyaml_anchor_t){ 0 };
	*anchors = p;
	(*anchors_count)++;
	return CYAML_OK;
}
#endif
#if defined(V_RECORD)
static cyaml_err_t cyaml__handle_anchor(cyaml_ctx_t *ctx, const yaml_event_t *event, bool *is_anchor_out)
{
	V_ASSERT("[P11] the event being recorded is looked at for an anchor", ctx == &g_ctx && event == &EV);
	V_ASSERT("[P11] before it is recorded", REC.events_count == g_ec && REC.data_count == g_dc);
	g.anchors++;
	g.code = v_err("anchor.result");
	if (g.code == CYAML_OK) {
		*is_anchor_out = g_flag;
		if (g_flag && IS_START(EV.type)) { REC.progress_count++; }
		else if (g_flag) { REC.complete_count++; }
	}
	return g.code;
}
static cyaml_err_t cyaml__update_anchor_recordings(cyaml_ctx_t *ctx, uint32_t event_index, const yaml_event_t *event)
{
	V_ASSERT("[P11] nesting is followed for the event recorded, once it is recorded", ctx == &g_ctx && event == &EV && event_index == g_ec && REC.events_count == g_ec + 1);
	V_ASSERT("[P11] what is recorded is known", REC.events[event_index] < REC.data_count);
	g.updates++;
	return g.code = v_err("update.result");
}
#endif
#if defined(V_UPDATE)
static cyaml_err_t cyaml__record_stack_push(cyaml_ctx_t *ctx, uint32_t event_index)
{
	V_ASSERT("[P11] the event's own index is kept", ctx == &g_ctx && event_index == g_idx);
	g.rpushes++;
	return g.code = v_err("push.result");
}
static cyaml_err_t cyaml__record_stack_pop(cyaml_ctx_t *ctx, uint32_t event_index)
{
	V_ASSERT("[P11] the event's own index is kept", ctx == &g_ctx && event_index == g_idx);
	g.rpops++;
	return g.code = v_err("pop.result");
}
#endif

/* ---- contracts --------------------------------------------------------------- */
#define SAME_P IMP(g_k < g_pc, REC.progress[g_k].name == g_pk.name && REC.progress[g_k].len == g_pk.len && REC.progress[g_k].start == g_pk.start)
#define SAME_C IMP(g_k < g_cc, REC.complete[g_k].name == g_ck.name && REC.complete[g_k].len == g_ck.len && REC.complete[g_k].start == g_ck.start && REC.complete[g_k].end == g_ck.end)
#define SAME_E IMP(g_k < g_ec, REC.events[g_k] == g_ek)
#define SAME_S IMP(g_k < g_sc, REC.stack[g_k] == g_sk)
#define SAME_D IMP(g_k < g_dc, ((uint64_t *)REC.data)[g_k * NW + g_w] == g_dk)
#if defined(V_NEXT)
#define NOAL ((g_cfg.flags & CYAML_CFG_NO_ALIAS) != 0)
#define ALIAS (!g_active && !g.parse_failed && g_ev.type == YAML_ALIAS_EVENT)
#define PARSED (!g_active && !g.parse_failed && g_ev.type != YAML_ALIAS_EVENT)
#define FOUND (ALIAS && !NOAL && g.aliases == 1 && RET_ALIAS_OK)
#define RET_ALIAS_OK (g.replays != 0)
#define REPLAYED (g_active || (ALIAS && g.replays != 0))
#define CLAUSES(E) \
E("[P11] new input is read exactly when nothing is replayed", g.parses == (g_active ? 0 : 1)) \
E("[P10,P11] a failing parser is reported", IMP(!g_active && g.parse_failed, RET == CYAML_ERR_LIBYAML_PARSER && !g.ev_live && g.records == 0 && g.replays == 0)) \
E("[P11] an alias is an error when they are disallowed", IMP(ALIAS && NOAL, RET == CYAML_ERR_ALIAS && g.aliases == 0 && g.replays == 0)) \
E("[P11] otherwise the alias is looked up once", g.aliases == (ALIAS && !NOAL ? 1 : 0)) \
E("[P11] an unknown alias is the lookup's error", IMP(ALIAS && !NOAL && g.replays == 0, RET == g.code && RET != CYAML_OK)) \
E("[P11] an alias event itself is never passed on", IMP(ALIAS && RET == CYAML_OK, g.replays == 1 && !g.ev_live)) \
E("[P11] replay gives one event", g.replays == (REPLAYED ? 1 : 0)) \
E("[P11] a replayed event is recorded as such, at its place", IMP(REPLAYED, g.records == (NOAL ? g.records : 1)) && IMP(REPLAYED && g.records != 0, g.rec_replayed && g.rec_idx == g_idx && \
	g.rec_type == g_ev2.type && g.rec_val == g_ev2.data.scalar.value)) \
E("[P11] any other event is recorded as new", IMP(PARSED, g.records == (NOAL ? g.records : 1)) && IMP(PARSED && g.records != 0, !g.rec_replayed && g.rec_type == g_ev.type && g.rec_val == g_ev.data.scalar.value)) \
E("[P11] recording happens at most once and decides", g.records <= 1 && IMP(g.records != 0, RET == g.code) && IMP((REPLAYED || PARSED) && g.records == 0, RET == CYAML_OK)) \
E("[P11] the event passed on is the one parsed or replayed, unchanged", IMP(RET == CYAML_OK, EV.type == (REPLAYED ? g_ev2.type : g_ev.type) && \
	EV.data.scalar.value == (REPLAYED ? g_ev2.data.scalar.value : g_ev.data.scalar.value) && EV.data.scalar.length == (REPLAYED ? g_ev2.data.scalar.length : g_ev.data.scalar.length))) \
E("[P10,P11] a live event is owned", g_ctx.event_ctx.have_event == g.ev_live) \
E("[P10,P11] an event parsed stays live unless the recording took it or it was an alias found", IMP(PARSED, g.ev_live || g.upd_moved))
#define FN cyaml_get_next_event
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx)
#elif defined(V_DEL)
#define CLAUSES(E) \
E("[P10] an owned event is deleted", g.dels == (g_owned ? 1 : 0)) \
E("[P10] and not owned any more", !g_ctx.event_ctx.have_event)
#define FN cyaml__delete_yaml_event
#define RTYPE static void
#define ARGS (cyaml_ctx_t *ctx)
#elif defined(V_ALIAS)
#define CLAUSES(E) \
E("[P11] an alias without completed anchor of exactly its name is an error", IMP(g_last == 0, RET == CYAML_ERR_INVALID_ALIAS && !RPL.active)) \
E("[P11] otherwise it is found", IMP(g_last != 0, RET == CYAML_OK && RPL.active)) \
E("[P11] the last anchor completed under that name is replayed, from its start", IMP(g_last != 0, RPL.anchor_idx == g_last - 1 && RPL.event_idx == g_ck.start))
#define FN cyaml__handle_alias
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, const yaml_event_t *event)
#elif defined(V_REPLAY)
#define CLAUSES(E) \
E("[P11] the event replayed is the one recorded at this place", WORD(&g_ev2) == g_dk) \
E("[P11] its place is reported", g_eidx == g_idx) \
E("[P11] replay goes on to the next event of the anchor", IMP(g_idx < g_end, RPL.active && RPL.event_idx == g_idx + 1)) \
E("[P11] replay stops after the anchor's last event", IMP(g_idx == g_end, !RPL.active)) \
E("[P11] the anchor replayed stays the same", RPL.anchor_idx == g_k)
#define FN cyaml__handle_replay
#define RTYPE static void
#define ARGS (cyaml_ctx_t *ctx, yaml_event_t *event_out, uint32_t *event_index_out)
#elif defined(V_ANCHOR)
#define NAMED (g.value != NULL && (IS_START(EVT) || EVT == YAML_SCALAR_EVENT))
#define MULTI IS_START(EVT)
#define NEWA (MULTI ? REC.progress[g_pc] : REC.complete[g_cc])
#define CLAUSES(E) \
E("[P11] an event without anchor starts nothing", IMP(!NAMED, RET == CYAML_OK && !g_flag && REC.progress_count == g_pc && REC.complete_count == g_cc && g.mem_allocs == 0)) \
E("[P11] an event with an anchor is reported as such", IMP(NAMED && RET == CYAML_OK, g_flag)) \
E("[P11] a collection's anchor starts being recorded, a scalar's is complete", IMP(NAMED && RET == CYAML_OK, REC.progress_count == g_pc + (MULTI ? 1 : 0) && REC.complete_count == g_cc + (MULTI ? 0 : 1))) \
E("[P11] it starts at the event being recorded, and a scalar ends there", IMP(NAMED && RET == CYAML_OK, NEWA.start == g_ec && IMP(!MULTI, NEWA.end == g_ec))) \
E("[P11] it has the anchor's whole name", IMP(NAMED && RET == CYAML_OK, NEWA.len == g.value_len && NEWA.name == (char *)g.mem_last && g.mem_last_size >= g.value_len + 1)) \
E("[P11] byte for byte", IMP(NAMED && RET == CYAML_OK && g.mk <= g.value_len, ((char *)g.mem_last)[g.mk] == g.value[g.mk])) \
E("[P11] and terminated", IMP(NAMED && RET == CYAML_OK, ((char *)g.mem_last)[g.value_len] == 0)) \
E("[P10] failing is out of memory", IMP(RET != CYAML_OK, RET == CYAML_ERR_OOM && g.mem_fails != 0) && IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM)) \
E("[P10] an anchor whose name could not be kept has none", IMP(RET != CYAML_OK, IMP(REC.progress_count != g_pc, REC.progress_count == g_pc + 1 && REC.progress[g_pc].name == NULL) && \
	IMP(REC.complete_count != g_cc, REC.complete_count == g_cc + 1 && REC.complete[g_cc].name == NULL)))
#define FN cyaml__handle_anchor
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, const yaml_event_t *event, bool *is_anchor_out)
#elif defined(V_NEWA)
#define CLAUSES(E) \
E("[P11] one entry is added", IMP(RET == CYAML_OK, REC.complete_count == g_cc + 1)) \
E("[P10] it has no name yet", IMP(RET == CYAML_OK, REC.complete[g_cc].name == NULL)) \
E("[P11] anchors known before stay", SAME_C) \
E("[P10] failing is out of memory, and changes nothing", IMP(RET != CYAML_OK, RET == CYAML_ERR_OOM && g.mem_fails != 0 && REC.complete_count == g_cc && REC.complete == g_ca) && IMP(g.mem_fails != 0, RET != CYAML_OK))
#define FN cyaml__new_anchor
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, uint32_t *anchors_count, cyaml_anchor_t **anchors)
#elif defined(V_RECORD)
static bool g_replayed;
#define PC_NOW (g_pc + (!g_replayed && g_flag && IS_START(EVT) ? 1 : 0))
#define WANTED (g_replayed ? g_pc != 0 : (PC_NOW != 0 || g_flag))
#define ANCH_OK (g_replayed || g.mem_fails != 0 || g.updates != 0 || g.code == CYAML_OK)
#define CLAUSES(E) \
E("[P11] only new events make anchors", g.anchors == (g_replayed ? 0 : 1)) \
E("[P11] failing to note an anchor fails", IMP(!ANCH_OK, RET == g.code && REC.events_count == g_ec && REC.data_count == g_dc)) \
E("[P11] outside of anchored nodes nothing is recorded", IMP(ANCH_OK && !WANTED, RET == CYAML_OK && REC.events_count == g_ec && REC.data_count == g_dc && g.updates == 0)) \
E("[P11] within, the event is recorded at the end", IMP(ANCH_OK && WANTED && g.mem_fails == 0, REC.events_count == g_ec + 1 && g.updates == 1 && RET == g.code)) \
E("[P11] a replayed event refers to the event first recorded", IMP(g.updates != 0 && g_replayed, REC.events[g_ec] == g_eidx && REC.data_count == g_dc)) \
E("[P11] a new event is kept itself", IMP(g.updates != 0 && !g_replayed, REC.data_count == g_dc + 1 && REC.events[g_ec] == g_dc && ((uint64_t *)REC.data)[(size_t)g_dc * NW + g_w] == g_dk)) \
E("[P11] what was recorded before stays", IMP(g_replayed || g_k != g_dc, SAME_E)) \
E("[P11] events recorded before stay", SAME_D2) \
E("[P10] failing to grow is out of memory", IMP(g.mem_fails != 0, RET == CYAML_ERR_OOM && g.updates == 0 && REC.events_count == g_ec)) \
E("[P10,P11] an event is owned once: by the recording if kept there, else as before", g_ctx.event_ctx.have_event == (REC.data_count != g_dc ? false : g_owned) && \
	IMP(REC.data_count != g_dc, !g_replayed && REC.data_count == g_dc + 1 && ((uint64_t *)REC.data)[(size_t)g_dc * NW + g_w] == g_dk))
#define SAME_D2 IMP(g_k < g_dc, ((uint64_t *)REC.data)[g_k * NW + g_w] == g_old_dk)
static uint64_t g_old_dk;
#define FN cyaml__handle_record
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, const yaml_event_t *event, bool replayed_event, uint32_t replay_event_index)
#elif defined(V_UPDATE)
#define CLAUSES(E) \
E("[P11] the start of a collection goes one level in", g.rpushes == (IS_START(EVT) ? 1 : 0)) \
E("[P11] the end of a collection goes one level out", g.rpops == (IS_END(EVT) ? 1 : 0)) \
E("[P11] and decides", RET == (IS_START(EVT) || IS_END(EVT) ? g.code : CYAML_OK))
#define FN cyaml__update_anchor_recordings
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, uint32_t event_index, const yaml_event_t *event)
#elif defined(V_RPUSH)
#define CLAUSES(E) \
E("[P11] the start is remembered", IMP(RET == CYAML_OK, REC.stack_count == g_sc + 1 && REC.stack[g_sc] == g_idx)) \
E("[P11] outer starts stay", SAME_S) \
E("[P10] failing is out of memory, and changes nothing", IMP(RET != CYAML_OK, RET == CYAML_ERR_OOM && g.mem_fails != 0 && REC.stack_count == g_sc && REC.stack == g_sa) && IMP(g.mem_fails != 0, RET != CYAML_OK))
#define FN cyaml__record_stack_push
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, uint32_t event_index)
#elif defined(V_RPOP)
#define ENDS (g_plast.start == g_stop)
#define CLAUSES(E) \
E("[P11] an anchor is complete when the collection it names ends", IMP(RET == CYAML_OK, REC.complete_count == g_cc + (ENDS ? 1 : 0) && REC.progress_count == g_pc - (ENDS ? 1 : 0))) \
E("[P11] it then spans from its start to this event", IMP(RET == CYAML_OK && ENDS, REC.complete[g_cc].start == g_plast.start && REC.complete[g_cc].end == g_idx)) \
E("[P11] under its name", IMP(RET == CYAML_OK && ENDS, REC.complete[g_cc].name == g_plast.name && REC.complete[g_cc].len == g_plast.len)) \
E("[P11] one level is left", IMP(RET == CYAML_OK, REC.stack_count == g_sc - 1)) \
E("[P11] other anchors stay", IMP(g_k + 1 != g_pc, SAME_P) && SAME_C) \
E("[P10] failing is out of memory, and loses nothing", IMP(RET != CYAML_OK, RET == CYAML_ERR_OOM && g.mem_fails != 0 && REC.progress_count == g_pc && REC.complete_count == g_cc && REC.complete == g_ca && \
	REC.progress[g_pc - 1].name == g_plast.name) && IMP(g.mem_fails != 0, RET != CYAML_OK))
#define FN cyaml__record_stack_pop
#define RTYPE static cyaml_err_t
#define ARGS (cyaml_ctx_t *ctx, uint32_t event_index)
#else
#define CLAUSES(E) \
E("[P10] the name of every anchor in progress is freed once", g.fp == (g_k < g_pc ? 1 : 0)) \
E("[P10] the name of every completed anchor is freed once", g.fc == (g_k < g_cc ? 1 : 0)) \
E("[P10] every recorded event is deleted once", g.fd == (g_k < g_dc ? 1 : 0)) \
E("[P10] all the arrays are freed", g.farr[0] == 1 && g.farr[1] == 1 && g.farr[2] == 1 && g.farr[3] == 1 && g.farr[4] == 1)
#define FN cyaml__free_recording
#define RTYPE static void
#define ARGS (cyaml_ctx_t *ctx)
#endif

#ifdef V_CBMC
#define RET __CPROVER_return_value
RTYPE FN ARGS
__CPROVER_assigns(GHOST, g_ctx, g_parser, g_flag, g_ev2, g_eidx, g_toff)
#if !defined(V_NEXT) && !defined(V_DEL)
__CPROVER_assigns(g_pa != NULL: __CPROVER_object_whole(g_pa))
__CPROVER_assigns(g_ca != NULL: __CPROVER_object_whole(g_ca))
__CPROVER_assigns(g_ea != NULL: __CPROVER_object_whole(g_ea))
__CPROVER_assigns(g_sa != NULL: __CPROVER_object_whole(g_sa))
__CPROVER_assigns(g_da != NULL: __CPROVER_object_whole(g_da))
#endif
CLAUSES(V_ENS)
;
#undef RET
#endif

static void v_anchors(void)
{
	g_pc = v_in_u32("progress.count");
	g_cc = v_in_u32("complete.count");
	g_ec = v_in_u32("events.count");
	g_dc = v_in_u32("data.count");
	g_sc = v_in_u32("stack.count");
	g_k = (size_t)v_in_u64("tracked");
	/* recordings are limited by memory: fewer than 2^24 entries */
#if defined(V_BOUNDED) || defined(V_NATIVE) || defined(V_SMALL)
#define LIM 3
#else
#define LIM 0xffffff
#endif
	V_ASSUME(g_pc <= LIM && g_cc <= LIM && g_ec <= LIM && g_dc <= LIM && g_sc <= LIM && g_k <= LIM);
	REC.progress_count = g_pc;
	REC.complete_count = g_cc;
	REC.events_count = g_ec;
	REC.data_count = g_dc;
	REC.stack_count = g_sc;
	g_pa = g_ca = NULL; g_ea = g_sa = NULL; g_da = NULL;
#define ARR(p, n, T) if ((n) != 0) { p = malloc((size_t)(n) * sizeof(T)); V_ASSUME(p != NULL); V_FILL(p, 0, (size_t)(n) * sizeof(T)); }
#if defined(V_RPOP) || defined(V_FREE)
	ARR(g_pa, g_pc, cyaml_anchor_t)
#endif
#if defined(V_ALIAS) || defined(V_REPLAY) || defined(V_NEWA) || defined(V_RPOP) || defined(V_FREE)
	ARR(g_ca, g_cc, cyaml_anchor_t)
#endif
#if !defined(V_ANCHOR) && !defined(V_ALIAS) && !defined(V_NEWA)
	ARR(g_ea, g_ec, uint32_t) ARR(g_da, g_dc, yaml_event_t)
#endif
#if defined(V_RPUSH) || defined(V_RPOP) || defined(V_FREE)
	ARR(g_sa, g_sc, uint32_t)
#endif
	REC.progress = g_pa;
	REC.complete = g_ca;
	REC.events = g_ea;
	REC.stack = g_sa;
	REC.data = g_da;
#ifdef V_RECORD
	g_w = 0;   /* whole events are copied (asserted by v_own_memcpy): one word stands for all */
#else
	g_w = v_in_u8("word");
	V_ASSUME(g_w < NW);
#endif
}
static void v_snap(void)
{
	if (g_pa != NULL && g_k < g_pc) { g_pk = g_pa[g_k]; }
	if (g_ca != NULL && g_k < g_cc) { g_ck = g_ca[g_k]; }
	if (g_ea != NULL && g_k < g_ec) { g_ek = g_ea[g_k]; }
	if (g_sa != NULL && g_k < g_sc) { g_sk = g_sa[g_k]; }
	if (g_da != NULL && g_k < g_dc) { g_dk = ((uint64_t *)g_da)[g_k * NW + g_w]; }
}
static void v_event(yaml_event_t *e)
{
	*e = (yaml_event_t){ 0 };
	e->type = (yaml_event_type_t)v_in_u8("event.type");
	V_ASSUME(e->type < CYAML_EVT__COUNT);
}

void harness(void)
{
	v_env_init();
	g_cfg.mem_fn = v_grow;
	g_ctx.parser = &g_parser;
	v_event(&g_ev);
#if defined(V_NEXT)
	v_event(&g_ev2);
	g_active = v_in_bool("replay.active");
	g_owned = v_in_bool("event.owned");
	V_ASSUME(!(g_active && g_owned));      /* a replayed event is owned by its recording */
	g_idx = v_in_u32("replay.index");
	RPL.active = g_active;
	g_ctx.event_ctx.have_event = g.ev_live = g_owned;
	static yaml_char_t a[4];
	g_ev.data.scalar.value = a; g_ev2.data.scalar.value = a + 1; EV.data.scalar.value = a + 2;
	g_ev.data.scalar.length = 5; g_ev2.data.scalar.length = 6;
#elif defined(V_DEL)
	g_owned = v_in_bool("event.owned");
	g_ctx.event_ctx.have_event = g.ev_live = g_owned;
#endif
#if defined(V_NEXT)
	cyaml_err_t v_ret = cyaml_get_next_event(&g_ctx);
#elif defined(V_DEL)
	int v_ret = 0; cyaml__delete_yaml_event(&g_ctx);
#else
	v_anchors();
#if defined(V_ALIAS)
	g_last = v_in_u32("last.match");
	V_ASSUME(g_last <= g_cc);
	g.names = malloc((size_t)g_cc + 1);
	V_ASSUME(g.names != NULL);
	g_alias = v_text();
	g_alen = g.value_len;
	g_ev.type = YAML_ALIAS_EVENT;
	g_ev.data.alias.anchor = (yaml_char_t *)g_alias;
	g_k = g_last == 0 ? 0 : g_last - 1;
#ifdef V_INIT_TABLE
	for (size_t k = 0; k < g_cc; k++) { g_ca[k].name = (char *)g.names + k; g_ca[k].len = (size_t)v_in_u8("name.len"); g_ca[k].start = v_in_u8("start"); }
#endif
	if (g_last != 0) { g_ca[g_k].len = g_alen; g_ca[g_k].name = (char *)g.names + g_k; }
	v_snap();
	cyaml_err_t v_ret = cyaml__handle_alias(&g_ctx, &g_ev);
#elif defined(V_REPLAY)
	g_start = v_in_u32("start"); g_end = v_in_u32("end"); g_idx = v_in_u32("index");
	V_ASSUME(g_k < g_cc && g_start <= g_idx && g_idx <= g_end && g_end < g_ec);
	g_ca[g_k].start = g_start; g_ca[g_k].end = g_end;
	g_ca[g_k].name = (char *)"n";
	g_eidx = v_in_u32("recorded");
	V_ASSUME(g_eidx < g_dc);
	g_ea[g_idx] = g_eidx;
	g_dk = ((uint64_t *)g_da)[(size_t)g_eidx * NW + g_w];
	g.mk = g_w * 8 + v_in_u8("byte") % 8;
	RPL.active = true; RPL.anchor_idx = (uint32_t)g_k; RPL.event_idx = g_idx;
	int v_ret = 0; cyaml__handle_replay(&g_ctx, &g_ev2, &g_eidx);
#elif defined(V_ANCHOR)
	char *t = v_text();
	if (v_in_bool("no.anchor")) { t = NULL; g.value = NULL; }
	g_ev.data.scalar.anchor = NULL;
	if (EVT == YAML_SCALAR_EVENT) { g_ev.data.scalar.anchor = (yaml_char_t *)t; }
	if (EVT == YAML_SEQUENCE_START_EVENT) { g_ev.data.sequence_start.anchor = (yaml_char_t *)t; }
	if (EVT == YAML_MAPPING_START_EVENT) { g_ev.data.mapping_start.anchor = (yaml_char_t *)t; }
	g.mk = (size_t)v_in_u64("tracked.byte");
	g_flag = v_in_bool("old.flag");
	v_snap();
	cyaml_err_t v_ret = cyaml__handle_anchor(&g_ctx, &g_ev, &g_flag);
#elif defined(V_NEWA)
	v_snap();
	cyaml_err_t v_ret = cyaml__new_anchor(&g_ctx, &REC.complete_count, &REC.complete);
#elif defined(V_RECORD)
	EV = g_ev;
	g_replayed = v_in_bool("replayed");
	g_flag = v_in_bool("anchor");
	g_owned = !g_replayed;
	g_idx = v_in_u32("replay.index");
	V_ASSUME(IMP(g_replayed, g_idx < g_ec));
	g_ctx.event_ctx.have_event = g_owned;
	((uint64_t *)&EV)[g_w] = v_in_u64("event.word");
	EV.type = g_ev.type;
	g.mk = g_w * 8;
	if (g_replayed) {
		/* what is recorded at that place is a recorded event */
		g_k = g_idx;
		g_eidx = g_ea[g_idx];
		V_ASSUME(g_eidx < g_dc);
	}
	v_snap();
	g_old_dk = g_dk;
	g_dk = WORD(&EV);
	cyaml_err_t v_ret = cyaml__handle_record(&g_ctx, &EV, g_replayed, g_idx);
#elif defined(V_UPDATE)
	g_idx = v_in_u32("index");
	cyaml_err_t v_ret = cyaml__update_anchor_recordings(&g_ctx, g_idx, &g_ev);
#elif defined(V_RPUSH) || defined(V_RPOP)
	g_idx = v_in_u32("index");
	V_ASSUME(g_idx < g_ec);
	V_ASSUME(g_ea[g_idx] < g_dc);
	V_ASSUME((unsigned)g_da[g_ea[g_idx]].type < CYAML_EVT__COUNT);
#ifdef V_RPUSH
	v_snap();
	cyaml_err_t v_ret = cyaml__record_stack_push(&g_ctx, g_idx);
#else
	V_ASSUME(g_sc != 0 && g_pc != 0);
	g_pa[g_pc - 1].name = (char *)"n";
	v_snap();
	g_plast = g_pa[g_pc - 1];
	g_stop = g_sa[g_sc - 1];
	cyaml_err_t v_ret = cyaml__record_stack_pop(&g_ctx, g_idx);
#endif
#else
	g.names = malloc((size_t)g_pc + 1);
	g_alias = malloc((size_t)g_cc + 1);
	V_ASSUME(g.names != NULL && g_alias != NULL && g_pc != 0 && g_cc != 0 && g_dc != 0 && g_ec != 0 && g_sc != 0);
#ifdef V_INIT_TABLE
	for (size_t k = 0; k < g_pc; k++) { g_pa[k].name = (char *)g.names + k; }
	for (size_t k = 0; k < g_cc; k++) { g_ca[k].name = g_alias + k; }
#endif
	int v_ret = 0; cyaml__free_recording(&g_ctx);
#endif
#endif
#ifdef V_NATIVE
	#define RET v_ret
	CLAUSES(V_CHECK)
#else
	(void)v_ret;
#endif
}
