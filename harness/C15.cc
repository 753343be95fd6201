// C15: any sequence of API calls is memory safe and releases everything
// technique: exhaustive exploration of all call sequences up to a bounded depth from rich starting objects on the real library under the address sanitizer, including refused calls, destroyed parents and every order of giving things back; the allocated memory is compared before and after
#include "mm.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
// What the caller holds. state: C started by dc_begin, K a reference to a submitted context, R a reference to a root, M/G a mold/config under construction.
enum { NH = 5, NO = 2 };   // u: an update of config ug
struct W { disir_context *h[NH]; char s[NH]; disir_mold *m[NO]; disir_config *g[NO]; disir_collection *col[NO]; disir_update *u; int ug; };
enum { BEGIN_KV, BEGIN_SEC, BEGIN_DEF, BEGIN_RES, BEGIN_DOC, FIN, KEEP, DESTROY, PUT, FIND_K, FIND_S, FIND_1, ELEMENTS, ROOTFIN, C_NEXT, C_FIN, M_FIN, M_CTX, M_BEGIN, G_FIN, G_CTX, G_MOLD, // structural
    U_BEGIN, U_RESOLVE, U_CONTINUE, U_FIN, U_TAKE, // updates
    M_GEN, M_VALID, G_VALID, C_RESET, FINDALL, DEFAULTS, RESTRS, NAME_K, NAME_S, NAME_X, TYPE_INT, TYPE_ENUM, VALUE, VALUE_BAD, ADD_DEFAULT, ADD_DEFAULT2, ADD_DOC, ADD_RANGE, ADD_ENUM, ADD_MIN, ADD_MAX, INTRO, DEPR, FATAL, READ, COMPARE, SETDEF, GEN, RES_TYPE, RES_NUM, SETVER, CSET, CSET_NESTED, QUERY, ADD_KV, NOPS };
static const char *ON[] = { "begin keyval", "begin section", "begin default", "begin restriction", "begin documentation", "finalize", "finalize, keep", "destroy", "put", "find k", "find s", "find k 1", "get elements", "finalize root", "next", "collection finished", "mold finished", "mold context", "begin config", "config finished", "config context", "mold of config", "update", "resolve", "continue", "discard update", "finish update",
    "generate", "mold valid", "config valid", "reset", "find all k", "default contexts", "restriction contexts", "name k", "name s", "name x", "type integer", "type enum", "value 5", "value zz", "add default 5", "add default 6 at 2.0", "add documentation", "add range", "add enum", "add minimum", "add maximum", "introduced 2.0", "deprecated 3.0", "fatal error", "read", "compare", "set default", "generate missing", "restriction type", "restriction number", "set version", "set k", "set s@1.k", "resolve s.k", "add keyval" };
static bool on_handle (int k) { return k <= ELEMENTS || k == ROOTFIN || k >= FINDALL; }
static bool needs_slot (int k) { return k <= BEGIN_DOC || (k >= FIND_K && k <= FIND_1) || k == C_NEXT || k == M_CTX || k == M_BEGIN || k == G_CTX || k == QUERY || k == ADD_KV; }
static bool needs_col (int k) { return k == ELEMENTS || k == FINDALL || k == DEFAULTS || k == RESTRS || k == M_VALID || k == G_VALID; }
struct Op { short k, i; };
static int free_slot (const W &w, int limit) { for (int i = 0; i < limit; i++) if (!w.h[i]) return i; return -1; }
static int free_col (const W &w) { for (int i = 0; i < NO; i++) if (!w.col[i]) return i; return -1; }
static int legal (const W &w, Op *out, int nops, int limit)
{
    int n = 0; bool slot = free_slot (w, limit) >= 0, col = free_col (w) >= 0; for (int k = 0; k < nops; k++)
    {
        if (needs_slot (k) && !slot) continue; if (needs_col (k) && !col) continue; int m = on_handle (k) ? limit : NO;
        for (int i = 0; i < m; i++)
        {
            bool ok; if (on_handle (k)) { ok = w.h[i]; if (k == DESTROY) ok = ok && w.s[i] != 'R'; if (k == PUT) ok = ok && (w.s[i] == 'R' || w.s[i] == 'K'); if (k == ROOTFIN) ok = ok && (w.s[i] == 'M' || w.s[i] == 'G'); if (k == ROOTFIN && ok) { ok = false; for (int j = 0; j < NO; j++) if (w.s[i] == 'M' ? !w.m[j] : !w.g[j]) ok = true; } }
            else if (k == C_NEXT || k == C_FIN || k == C_RESET) ok = w.col[i]; else if (k == G_FIN || k == G_CTX || k == G_MOLD || k == G_VALID) { ok = w.g[i]; if (k == G_FIN) ok = ok && !(w.u && w.ug == i); if (k == G_MOLD) ok = ok && (!w.m[0] || !w.m[1]); } else if (k >= U_BEGIN && k <= U_TAKE) ok = k == U_BEGIN ? w.g[i] && !w.u : w.u && i == 0 && (k != U_TAKE || !w.g[0] || !w.g[1]); else { ok = w.m[i]; if (k == M_GEN) ok = ok && (!w.g[0] || !w.g[1]); }
            if (ok) { out[n].k = k; out[n++].i = i; }
        }
    } return n;
}
static disir_version V2 = { 2, 0 }, V3 = { 3, 0 };
static char sink[64];
static void read_all (disir_context *x)
{
    const char *s; int32_t n; char buf[16], *t = NULL; int64_t i; double d, e; uint8_t b; disir_version v; int k; enum disir_value_type ty; enum disir_restriction_type rt; dc_context_type (x); dc_context_type_string (x); s = dc_context_error (x); if (s) snprintf (sink, sizeof sink, "%s", s); dc_context_valid (x);
    if (!dc_get_name (x, &s, &n)) snprintf (sink, sizeof sink, "%.*s", n, s); if (!dc_resolve_root_name (x, &t)) { snprintf (sink, sizeof sink, "%s", t); free (t); } dc_get_value (x, sizeof buf, buf, &n); if (!dc_get_value_string (x, &s, &n) && s) snprintf (sink, sizeof sink, "%s", s); if (!dc_get_value_enum (x, &s, &n) && s) snprintf (sink, sizeof sink, "%s", s); dc_get_value_integer (x, &i); dc_get_value_float (x, &d); dc_get_value_boolean (x, &b); dc_value_type (x); s = dc_value_type_string (x); dc_get_value_type (x, &ty); dc_get_version (x, &v); dc_get_introduced (x, &v); dc_get_deprecated (x, &v);
    if (!dc_get_documentation (x, NULL, &s, &n) && s) snprintf (sink, sizeof sink, "%s", s); if (!dc_get_documentation (x, &V2, &s, &n) && s) snprintf (sink, sizeof sink, "%s", s); dc_get_default (x, NULL, sizeof buf, buf, &n); dc_get_default (x, &V2, sizeof buf, buf, &n); dc_restriction_entries_minimum (x, &k); dc_restriction_entries_maximum (x, &k); dc_get_restriction_type (x, &rt); if (!dc_restriction_get_string (x, &s) && s) snprintf (sink, sizeof sink, "%s", s); dc_restriction_get_range (x, &d, &e); dc_restriction_get_numeric (x, &d); s = dc_restriction_context_string (x); if (s) snprintf (sink, sizeof sink, "%s", s); dc_config_get_keyval_integer (x, &i, "k"); dc_config_get_keyval_integer (x, &i, "s.k"); dc_config_get_keyval_string (x, &s, "k");
}
static void report_free (disir_diff_report *r) { if (!r) return; for (int i = 0; i < r->dr_entries; i++) free (r->dr_diff_string[i]); free (r->dr_diff_string); free (r); }
struct Bad { bool is; char sig[40], text[160]; };
static enum disir_status step (W &w, Op o, Bad &bad)
{
    enum disir_status st = DISIR_STATUS_OK; int i = o.i, f = free_slot (w, NH), fc = free_col (w); disir_context *x = on_handle (o.k) ? w.h[i] : NULL, *nx = NULL; disir_collection *cl = NULL;
    auto take = [&] (char state) { if (st == DISIR_STATUS_OK && nx) { w.h[f] = nx; w.s[f] = state; } };
    switch (o.k)
    {
    case BEGIN_KV: case BEGIN_SEC: case BEGIN_DEF: case BEGIN_RES: case BEGIN_DOC: { static const enum disir_context_type T[] = { DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_DOCUMENTATION }; st = dc_begin (x, T[o.k - BEGIN_KV], &nx); take ('C'); if (st != DISIR_STATUS_OK && nx) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "begin-output"); snprintf (bad.text, sizeof bad.text, "dc_begin fails and sets its output"); } break; }
    case FIN: st = dc_finalize (&w.h[i]); if (st == DISIR_STATUS_OK && w.h[i]) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "finalize-output"); snprintf (bad.text, sizeof bad.text, "a finalized context is not taken from the caller"); } if (st == DISIR_STATUS_INVALID_CONTEXT && w.h[i]) { if (w.s[i] == 'C') w.s[i] = 'K'; } break;
    case KEEP: st = dc_finalize_keep_reference (x); if ((st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT) && w.s[i] == 'C') w.s[i] = 'K'; break;
    case DESTROY: st = dc_destroy (&w.h[i]); if (st == DISIR_STATUS_OK && w.h[i]) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "destroy-output"); snprintf (bad.text, sizeof bad.text, "a destroyed context is not taken from the caller"); } if (st != DISIR_STATUS_OK) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "destroy"); snprintf (bad.text, sizeof bad.text, "a context cannot be destroyed: %s", disir_status_string (st)); w.h[i] = NULL; } break;
    case PUT: st = dc_putcontext (&w.h[i]); if (st != DISIR_STATUS_OK || w.h[i]) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "put"); snprintf (bad.text, sizeof bad.text, "a reference cannot be given back: %s", disir_status_string (st)); w.h[i] = NULL; } break;
    case FIND_K: st = dc_find_element (x, "k", 0, &nx); take ('K'); break; case FIND_S: st = dc_find_element (x, "s", 0, &nx); take ('K'); break; case FIND_1: st = dc_find_element (x, "k", 1, &nx); take ('K'); break; case QUERY: st = dc_query_resolve_context (x, "s.k", &nx); take ('K'); break;
    case ELEMENTS: st = dc_get_elements (x, &cl); if (!st) w.col[fc] = cl; break; case FINDALL: st = dc_find_elements (x, "k", &cl); if (!st) w.col[fc] = cl; break; case DEFAULTS: st = dc_get_default_contexts (x, &cl); if (!st) w.col[fc] = cl; break; case RESTRS: st = dc_restriction_collection (x, &cl); if (!st) w.col[fc] = cl; break;
    case ROOTFIN: if (w.s[i] == 'M') { int j = w.m[0] ? 1 : 0; st = dc_mold_finalize (&w.h[i], &w.m[j]); } else { int j = w.g[0] ? 1 : 0; st = dc_config_finalize (&w.h[i], &w.g[j]); } if (st == DISIR_STATUS_OK && w.h[i]) { bad.is = true; snprintf (bad.sig, sizeof bad.sig, "root-output"); snprintf (bad.text, sizeof bad.text, "a finalized root is not taken from the caller"); } break;
    case C_NEXT: st = dc_collection_next (w.col[i], &nx); take ('K'); if (st == DISIR_STATUS_OK && (dc_context_type (nx) == DISIR_CONTEXT_MOLD || dc_context_type (nx) == DISIR_CONTEXT_CONFIG)) w.s[f] = 'R'; break; case C_FIN: st = dc_collection_finished (&w.col[i]); break; case C_RESET: st = dc_collection_reset (w.col[i]); dc_collection_size (w.col[i]); break;
    case M_FIN: st = disir_mold_finished (&w.m[i]); break; case M_CTX: nx = dc_mold_getcontext (w.m[i]); take ('R'); break; case M_BEGIN: st = dc_config_begin (w.m[i], &nx); take ('G'); break; case M_VALID: st = disir_mold_valid (w.m[i], &cl); w.col[fc] = cl; break; case M_GEN: { disir_config *g = NULL; st = disir_generate_config_from_mold (w.m[i], NULL, &g); w.g[w.g[0] ? 1 : 0] = g; break; }
    case U_BEGIN: st = disir_update_config (w.g[i], NULL, &w.u); w.ug = i; break; case U_RESOLVE: { const char *a, *b, *d; st = disir_update_conflict (w.u, &a, &b, &d); if (!st) snprintf (sink, sizeof sink, "%s %s %s", a, b, d); st = disir_update_resolve (w.u, "5"); break; } case U_CONTINUE: st = disir_update_continue (w.u); break; case U_FIN: st = disir_update_finished (&w.u, NULL); break; case U_TAKE: st = disir_update_finished (&w.u, &w.g[w.g[0] ? 1 : 0]); break;
    case G_FIN: st = disir_config_finished (&w.g[i]); break; case G_CTX: nx = dc_config_getcontext (w.g[i]); take ('R'); break; case G_MOLD: st = disir_config_get_mold (w.g[i], &w.m[w.m[0] ? 1 : 0]); break; case G_VALID: st = disir_config_valid (w.g[i], &cl); w.col[fc] = cl; break;
    case NAME_K: st = dc_set_name (x, "k", 1); break; case NAME_S: st = dc_set_name (x, "s", 1); break; case NAME_X: st = dc_set_name (x, "x", 1); break; case TYPE_INT: st = dc_set_value_type (x, DISIR_VALUE_TYPE_INTEGER); break; case TYPE_ENUM: st = dc_set_value_type (x, DISIR_VALUE_TYPE_ENUM); break; case VALUE: st = dc_set_value (x, "5", 1); break; case VALUE_BAD: st = dc_set_value_string (x, "zz", 2); break;
    case ADD_DEFAULT: st = dc_add_default (x, "5", 1, NULL); break; case ADD_DEFAULT2: st = dc_add_default (x, "6", 1, &V2); break; case ADD_DOC: st = dc_add_documentation (x, "doc", 3); break; case ADD_RANGE: st = dc_add_restriction_value_range (x, 1, 6, "r", NULL, NULL); break; case ADD_ENUM: st = dc_add_restriction_value_enum (x, "5", "e", NULL, NULL); break; case ADD_MIN: st = dc_add_restriction_entries_min (x, 0, NULL); break; case ADD_MAX: st = dc_add_restriction_entries_max (x, 3, &V2); break;
    case INTRO: st = dc_add_introduced (x, &V2); break; case DEPR: st = dc_add_deprecated (x, &V3); break; case FATAL: st = dc_fatal_error (x, "error %d", 1); break; case READ: read_all (x); break; case SETDEF: st = dc_keyval_set_default (x, NULL); break; case GEN: st = dc_generate_from_config_root (x); break; case RES_TYPE: st = dc_set_restriction_type (x, DISIR_RESTRICTION_INC_ENTRY_MIN); break; case RES_NUM: st = dc_restriction_set_numeric (x, 0); break; case SETVER: st = dc_set_version (x, &V2); break;
    case COMPARE: for (int j = 0; j < NH; j++) if (w.h[j]) { disir_diff_report *r = NULL; dc_compare (x, w.h[j], NULL); st = dc_compare (x, w.h[j], &r); report_free (r); } break;
    case CSET: st = dc_config_set_keyval_integer (x, 7, "k"); break; case CSET_NESTED: st = dc_config_set_keyval_integer (x, 7, "s@1.k"); break; case ADD_KV: st = dc_add_keyval_integer (x, "k", 5, "doc", NULL, &nx); take ('K'); break;
    }
    return st;
}
static void cleanup (W &w, int order, Bad &bad)
{
    auto handle = [&] (int i) { if (!w.h[i]) return; Op o = { (short) (w.s[i] == 'K' || w.s[i] == 'R' ? PUT : DESTROY), (short) i }; step (w, o, bad); };
    if (w.u) disir_update_finished (&w.u, NULL); auto cols = [&] { for (int i = 0; i < NO; i++) if (w.col[i]) dc_collection_finished (&w.col[i]); }; auto objs = [&] (bool moldfirst) { for (int r = 0; r < 2; r++) for (int i = 0; i < NO; i++) if (moldfirst == !r) { if (w.m[i]) disir_mold_finished (&w.m[i]); } else if (w.g[i]) disir_config_finished (&w.g[i]); };
    if (order == 0) { cols (); for (int i = 0; i < NH; i++) handle (i); objs (false); } else { objs (true); for (int i = NH - 1; i >= 0; i--) handle (i); cols (); }
}
enum { MOLD_K, MOLD_KV, MOLD_SEC, MOLD_DONE, CFG, CFG_SEC, CFG_DONE, CFG_INVALID, MOLD_INVALID, CFG_OLD, NSCENES };
static const char *SN[] = { "mold being built, with a keyval", "keyval being built in a mold", "keyval in a section being built in a mold", "finished mold", "config being built", "section being built in a config", "finished config", "config with an invalid section and keyval", "mold with an invalid keyval", "config of an older version" };
static void must (enum disir_status s, bool &ok) { if (s != DISIR_STATUS_OK) ok = false; }
static void mold_kv (disir_context *p, bool &ok, bool two = false) { disir_context *k = NULL; must (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k), ok); must (dc_set_name (k, "k", 1), ok); must (dc_set_value_type (k, DISIR_VALUE_TYPE_INTEGER), ok); must (dc_add_default (k, "1", 1, NULL), ok); if (two) must (dc_add_default (k, "6", 1, &V2), ok); must (dc_add_restriction_entries_max (k, 3, NULL), ok); must (dc_finalize (&k), ok); }
static disir_mold *mold (bool &ok, bool two = false) { disir_context *r = NULL, *s = NULL; disir_mold *m = NULL; must (dc_mold_begin (&r), ok); mold_kv (r, ok, two); must (dc_begin (r, DISIR_CONTEXT_SECTION, &s), ok); must (dc_set_name (s, "s", 1), ok); mold_kv (s, ok, two); must (dc_add_restriction_entries_max (s, 3, NULL), ok); must (dc_add_documentation (s, "section", 7), ok); must (dc_finalize (&s), ok); must (dc_mold_finalize (&r, &m), ok); return m; }
static disir_context *cfg_kv (disir_context *p, bool &ok, bool fin) { disir_context *k = NULL; must (dc_begin (p, DISIR_CONTEXT_KEYVAL, &k), ok); must (dc_set_name (k, "k", 1), ok); must (dc_set_value_integer (k, 4), ok); if (!fin) return k; must (dc_finalize (&k), ok); return NULL; }
static bool scene (W &w, int k)
{
    memset (&w, 0, sizeof w); bool ok = true; auto put = [&] (disir_context *x, char s) { int f = free_slot (w, NH); w.h[f] = x; w.s[f] = s; if (!x) ok = false; }; disir_context *x = NULL, *y = NULL;
    switch (k)
    {
    case MOLD_K: must (dc_mold_begin (&x), ok); mold_kv (x, ok); put (x, 'M'); break;
    case MOLD_KV: must (dc_mold_begin (&x), ok); put (x, 'M'); must (dc_begin (x, DISIR_CONTEXT_KEYVAL, &y), ok); must (dc_set_name (y, "k", 1), ok); must (dc_set_value_type (y, DISIR_VALUE_TYPE_INTEGER), ok); put (y, 'C'); break;
    case MOLD_SEC: must (dc_mold_begin (&x), ok); put (x, 'M'); must (dc_begin (x, DISIR_CONTEXT_SECTION, &y), ok); must (dc_set_name (y, "s", 1), ok); put (y, 'C'); mold_kv (y, ok); break;
    case MOLD_DONE: w.m[0] = mold (ok); x = dc_mold_getcontext (w.m[0]); put (x, 'R'); must (dc_find_element (x, "k", 0, &y), ok); put (y, 'K'); break;
    case CFG: w.m[0] = mold (ok); must (dc_config_begin (w.m[0], &x), ok); put (x, 'G'); cfg_kv (x, ok, true); break;
    case CFG_SEC: w.m[0] = mold (ok); must (dc_config_begin (w.m[0], &x), ok); put (x, 'G'); must (dc_begin (x, DISIR_CONTEXT_SECTION, &y), ok); must (dc_set_name (y, "s", 1), ok); put (y, 'C'); put (cfg_kv (y, ok, false), 'C'); break;
    case CFG_DONE: case CFG_INVALID: w.m[0] = mold (ok); must (dc_config_begin (w.m[0], &x), ok); if (k == CFG_DONE) cfg_kv (x, ok, true); else { must (dc_begin (x, DISIR_CONTEXT_KEYVAL, &y), ok); must (dc_set_name (y, "k", 1), ok); dc_set_value_string (y, "zz", 2); dc_fatal_error (y, "broken"); if (dc_finalize (&y) != DISIR_STATUS_INVALID_CONTEXT) ok = false; if (y) put (y, 'K'); y = NULL; } must (dc_begin (x, DISIR_CONTEXT_SECTION, &y), ok); must (dc_set_name (y, "s", 1), ok); if (k == CFG_DONE) { cfg_kv (y, ok, true); must (dc_finalize (&y), ok); must (dc_config_finalize (&x, &w.g[0]), ok); put (dc_config_getcontext (w.g[0]), 'R'); } else { dc_finalize (&y); if (y) put (y, 'K'); enum disir_status s = dc_config_finalize (&x, &w.g[0]); if (s != DISIR_STATUS_INVALID_CONTEXT || !w.g[0]) ok = false; } break;
    case CFG_OLD: w.m[0] = mold (ok, true); must (dc_config_begin (w.m[0], &x), ok); cfg_kv (x, ok, true); must (dc_begin (x, DISIR_CONTEXT_SECTION, &y), ok); must (dc_set_name (y, "s", 1), ok); cfg_kv (y, ok, true); must (dc_finalize (&y), ok); must (dc_config_finalize (&x, &w.g[0]), ok); x = dc_config_getcontext (w.g[0]); must (dc_find_element (x, "k", 0, &y), ok); put (x, 'R'); put (y, 'K'); break;
    case MOLD_INVALID: must (dc_mold_begin (&x), ok); must (dc_begin (x, DISIR_CONTEXT_KEYVAL, &y), ok); must (dc_set_name (y, "k", 1), ok); if (dc_finalize (&y) != DISIR_STATUS_INVALID_CONTEXT) ok = false; put (y, 'K'); if (dc_mold_finalize (&x, &w.m[0]) != DISIR_STATUS_INVALID_CONTEXT) ok = false; if (x) put (x, 'M'); break;
    }
    return ok;
}
static void explore (Ctx &c, int depth, int nops, int limit)
{
    static Op list[NOPS * NH], seq[8]; static W w; Bad bad = { false, "", "" }; int k = c.choose (NSCENES), n = 0; c.risk ("crash"); c.note ("%s\n", SN[k]); size_t h0 = heap (); if (!scene (w, k)) c.fail ("scene", "scene %d cannot be built", k);
    for (; n < depth; n++) { int m = legal (w, list, nops, limit); int q = c.choose (m + 1); if (q == m) break; if (n == 0 && q < 0) break; seq[n] = list[q]; c.risk (ON[seq[n].k]); c.note ("%s on %d", ON[seq[n].k], seq[n].i); enum disir_status s = step (w, seq[n], bad); c.note (": %s\n", st (s)); }
    int order = c.choose (2); c.risk (order ? "back: objects first" : "back: contexts first"); c.note ("give everything back, %s\n", order ? "objects first, contexts backwards" : "contexts first"); cleanup (w, order, bad); size_t h1 = heap ();
    if (h1 != h0) { for (int r = 0; r < 3; r++) { h0 = h1; scene (w, k); for (int i = 0; i < n; i++) step (w, seq[i], bad); cleanup (w, order, bad); h1 = heap (); if (h1 == h0) break; } MC_CHECK (c, h1 == h0, "leak", "%zd bytes stay allocated", (ssize_t) (h1 - h0)); }
    if (bad.is) c.fail (bad.sig, "%s", bad.text); std::string key = strf ("%d", k); for (int i = 0; i < n; i++) { std::string nx = key + strf (" %d.%d", seq[i].k, seq[i].i); if (i == n - 1) c.transition (key, ON[seq[i].k]); key = nx; } c.state (key); if (n > 1) c.nontrivial (key); c.validated ();
}
static void logged (Ctx &c) { mc_log_to_null = 1; explore (c, 2, NOPS, 3); mc_log_to_null = 0; }   // with the text of every log message formatted
static void any (Ctx &c) { explore (c, 2, NOPS, 5); }
static void structural (Ctx &c) { explore (c, 3, M_GEN, 4); }
static void any3 (Ctx &c) { explore (c, 3, NOPS, 4); }
static void structural4 (Ctx &c) { explore (c, 4, U_BEGIN, 4); }
// many names and many entries of one name: the tables behind a tree grow and are released again
static bool wide_once (int total, int per, int mod, int rem, int use)
{
    bool ok = true; char name[16]; disir_context *x = NULL, *y = NULL; disir_mold *m = NULL; disir_config *g = NULL, *g2 = NULL; disir_collection *col = NULL;
    must (dc_mold_begin (&x), ok);
    for (int i = 0; i < total; i++)
    {
        snprintf (name, sizeof name, "n%d", i); must (dc_begin (x, DISIR_CONTEXT_KEYVAL, &y), ok); must (dc_set_name (y, name, strlen (name)), ok); must (dc_set_value_type (y, DISIR_VALUE_TYPE_INTEGER), ok); must (dc_add_default_integer (y, 1, NULL), ok);
        disir_version v = { 2, 0 }; if (i == 0) must (dc_add_default_integer (y, 2, &v), ok);
        must (dc_add_restriction_entries_max (y, 0, NULL), ok); must (dc_finalize (&y), ok);
    }
    must (dc_mold_finalize (&x, &m), ok); if (!ok) return false;
    disir_version v1 = { 1, 0 };
    if (use == 0) must (disir_generate_config_from_mold (m, &v1, &g), ok);
    else
    {
        must (dc_config_begin (m, &x), ok);
        for (int k = 0; k < per; k++) for (int i = 0; i < total; i++) { snprintf (name, sizeof name, "n%d", i); must (dc_begin (x, DISIR_CONTEXT_KEYVAL, &y), ok); must (dc_set_name (y, name, strlen (name)), ok); must (dc_set_value_integer (y, k), ok); must (dc_finalize (&y), ok); }
        if (use == 2) must (dc_config_finalize (&x, &g), ok); if (use == 2 && ok) x = dc_config_getcontext (g);
        int id = 0; if (dc_get_elements (x, &col) == DISIR_STATUS_OK) { while (dc_collection_next (col, &y) == DISIR_STATUS_OK) if (id++ % mod == rem) dc_destroy (&y); else dc_putcontext (&y); dc_collection_finished (&col); }
        if (use == 2) dc_putcontext (&x); else { enum disir_status s = dc_config_finalize (&x, &g); if (s != DISIR_STATUS_OK && s != DISIR_STATUS_INVALID_CONTEXT) ok = false; if (x) dc_putcontext (&x); }
    }
    if (!ok || !g) return false;
    if (disir_generate_config_from_mold (m, NULL, &g2) != DISIR_STATUS_OK) ok = false;
    disir_diff_report *report = NULL; x = dc_config_getcontext (g); y = dc_config_getcontext (g2); dc_compare (x, y, &report); if (report) report_free (report); dc_putcontext (&x); dc_putcontext (&y);
    disir_config_valid (g, &col); if (col) dc_collection_finished (&col);
    disir_update *u = NULL; disir_version v2 = { 2, 0 }; enum disir_status s = disir_update_config (g, &v2, &u); disir_config *gu = NULL; if (u) disir_update_finished (&u, &gu); if (gu) disir_config_finished (&gu); (void) s;
    disir_config_finished (&g); disir_config_finished (&g2); disir_mold_finished (&m); return ok;
}
static void wide (Ctx &c)
{
    int use = c.choose (3), total = 1 + 3 * c.choose (c.thorough () ? 46 : 24), per = use ? 1 + c.choose (c.thorough () ? 18 : 10) : 1, mod = use ? 1 + c.choose (3) : 1, rem = c.choose (mod); c.note ("%d names, %d of each, %s, every element whose number mod %d is %d removed\n", total, per, use == 0 ? "generated" : use == 1 ? "under construction" : "finished", mod, rem); c.risk ("crash-wide");
    size_t h0 = heap (); bool ok = wide_once (total, per, mod, rem, use); size_t h1 = heap (); MC_CHECK (c, ok, "wide", "the objects cannot be built");
    for (int r = 0; r < 3 && h1 != h0; r++) { h0 = h1; wide_once (total, per, mod, rem, use); h1 = heap (); } MC_CHECK (c, h1 == h0, "leak-wide", "%zd bytes stay allocated", (ssize_t) (h1 - h0));
    c.nontrivial (strf ("%d/%d/%d/%d/%d", use, total, per, mod, rem)); c.outcome (strf ("%d", use)); c.validated ();
}
static void init (const char *) { W w; Bad b; for (int r = 0; r < 2; r++) for (int k = 0; k < NSCENES; k++) { scene (w, k); cleanup (w, 0, b); } }
int main (int argc, char **argv)
{
    
    Info i = { "C15", "exploration", "every sequence of up to two (thorough three) out of some sixty calls (begin, submit, keep, destroy, give back, look up, list, iterate, name, type, set, version, default, documentation, restriction, fatal error, generate, validate, compare, query, update and its conflicts, of three structural calls (four in the thorough tier), each on every object held, from ten starting points (molds and configs under construction and finished, held contexts whose parents may go away), reading everything through every getter), followed by giving everything back in both of two orders; wide: a mold with up to 70 (thorough 136) names, a config generated from it or built with up to 10 (18) entries of each name, every residue class up to 3 removed before or after it is finished, then compared, validated and updated; the allocated memory must be what it was",
        { "contexts started with dc_begin are finalized or destroyed, every other reference is given back with dc_putcontext, and roots of finished objects are not destroyed (as documented)" }, init, nullptr };
    return mc::main (argc, argv, i, { { "logged", 2, logged }, { "any", 2, any }, { "wide", 3, wide }, { "structural", 3, structural }, { "any3", 3, any3, true }, { "structural4", 3, structural4, true } });
}
