// C28: only well-formed construction steps are accepted
// technique: exhaustive enumeration of every step on every kind of context in every state (and all short sequences of steps) on the real library, against a table of what makes sense and an observation of everything the step could have changed
#include "mm.h"
using namespace mc; using namespace mm;
#include <map>
#include <functional>
typedef std::map<std::string, std::string> Facets;
static disir_version V1 = { 1, 0 }, V2 = { 2, 0 }, V3 = { 3, 0 };
static std::string ver (const disir_version &v) { return strf ("%u.%u", v.sv_major, v.sv_minor); }
static disir_mold *cmold ()      // the mold configs are built against
{
    static disir_mold *p; if (p) return p;
    Mold m; m.kids = { MEl::kv ("k", Val::in (1)).with (Res::range (0, 9)).with (Res::max (2)), MEl::kv ("e", Val::en ("a")).with (Res::en ("a")).with (Res::en ("b")).with (Res::min (0)).with (Res::max (3)),
                       MEl::section ("s", { MEl::kv ("i", Val::in (5)), MEl::section ("t", {}).with (Res::min (0)) }).with (Res::min (0)).with (Res::max (3)) };
    Steps S; if (build_mold (m, &p, &S) || S.any_bad) abort (); return p;
}
// ---- what can be observed about one context --------------------------------------------------------
static std::string value_text (disir_context *x)
{
    char b[64] = ""; int32_t n = 0; enum disir_status s = dc_context_type (x) == DISIR_CONTEXT_DEFAULT ? dc_get_default (x, NULL, sizeof b, b, &n) : dc_get_value (x, sizeof b, b, &n); return s ? "-" : b;
}
static std::string restriction (disir_context *x)
{
    enum disir_restriction_type t = DISIR_RESTRICTION_UNKNOWN; dc_get_restriction_type (x, &t); disir_version i = { 9, 9 }, d = { 9, 9 }; dc_get_introduced (x, &i); dc_get_deprecated (x, &d);
    double a = 0, b = 0; const char *s = NULL; std::string v;
    if (t == DISIR_RESTRICTION_EXC_VALUE_ENUM) { dc_restriction_get_string (x, &s); v = s ? s : "-"; }
    else if (t == DISIR_RESTRICTION_EXC_VALUE_RANGE) { dc_restriction_get_range (x, &a, &b); v = strf ("%g..%g", a, b); }
    else if (t != DISIR_RESTRICTION_UNKNOWN) { dc_restriction_get_numeric (x, &a); v = strf ("%g", a); }
    return strf ("%s(%s)@%s-%s", dc_restriction_enum_string (t), v.c_str (), ver (i).c_str (), ver (d).c_str ());
}
static Facets facets (disir_context *x)
{
    Facets f; disir_version v; const char *s; int32_t n; disir_collection *col;
    f["kind"] = dc_context_type_string (x); f["valid"] = st (dc_context_valid (x));
    s = NULL; if (!dc_get_name (x, &s, &n)) f["name"] = s ? s : "-";
    enum disir_value_type vt; if (!dc_get_value_type (x, &vt)) f["type"] = tname (vt);
    v = V1; if (!dc_get_introduced (x, &v)) f["introduced"] = ver (v);
    v = V1; if (!dc_get_deprecated (x, &v)) f["deprecated"] = ver (v);
    v = V1; if (!dc_get_version (x, &v)) f["version"] = ver (v);
    enum disir_context_type t = dc_context_type (x);
    if (t == DISIR_CONTEXT_KEYVAL || t == DISIR_CONTEXT_DEFAULT || t == DISIR_CONTEXT_DOCUMENTATION) f["value"] = value_text (x);
    if (t == DISIR_CONTEXT_RESTRICTION) f["restriction"] = restriction (x);
    col = NULL; if (!dc_get_default_contexts (x, &col)) { std::string &o = f["defaults"]; each (col, [&] (disir_context *e) { disir_version i = V1; dc_get_introduced (e, &i); o += value_text (e) + "@" + ver (i) + " "; return true; }); }
    col = NULL; if (t == DISIR_CONTEXT_KEYVAL || t == DISIR_CONTEXT_SECTION) { std::string &o = f["restrictions"]; if (!dc_restriction_collection (x, &col) && col) each (col, [&] (disir_context *e) { o += restriction (e) + " "; return true; }); }
    for (disir_version dv : { V1, V2, V3 }) { s = NULL; n = 0; if (!dc_get_documentation (x, &dv, &s, &n)) f["docs"] += std::string (s ? s : "-", s ? n : 1) + " "; }
    col = NULL; if (!dc_get_elements (x, &col)) { std::string &o = f["elements"]; each (col, [&] (disir_context *e) { const char *en = NULL; int32_t m; dc_get_name (e, &en, &m); o += strf ("%s:%s:%s ", dc_context_type_string (e), en ? en : "-", st (dc_context_valid (e))); return true; }); }
    return f;
}
// ---- the world ----------------------------------------------------------------------------------------
enum Kind { MOLD, CONFIG, SEC, KV, CSEC, CKV, DEF, DOC, RES, SRES };
static const char *kn[] = { "mold", "config", "section of a mold", "keyval of a mold", "section of a config", "keyval of a config", "default", "documentation", "restriction of a keyval", "restriction of a section" };
struct W
{
    Kind k; bool fin, dest; bool pfin;         // finalized, destroyed, parent finalized
    disir_context *root, *parent, *t;          // t is held by one reference of ours (unless t is the root under construction)
    disir_mold *mold; disir_config *cfg; const char *what;
    bool in_config () const { return k == CONFIG || k == CSEC || k == CKV; }
    bool top () const { return k == MOLD || k == CONFIG; }
};
static disir_context *add_kv (disir_context *p, const char *name, int64_t v) { disir_context *x = NULL; dc_begin (p, DISIR_CONTEXT_KEYVAL, &x); dc_set_name (x, name, strlen (name)); dc_set_value_type (x, DISIR_VALUE_TYPE_INTEGER); dc_add_default_integer (x, v, &V1); if (dc_finalize_keep_reference (x)) abort (); return x; }
// all the targets: kind x how far it has been built
static const char *TN[] = { "mold under construction", "finished mold", "section just begun", "section with a name", "finished section", "destroyed section", "section begun in a finished mold",
    "keyval just begun", "keyval with a type", "keyval with name and type", "complete keyval", "finished keyval", "finished keyval of a finished mold", "keyval finished without a default", "destroyed keyval",
    "default just begun", "default with a value", "finished default", "default begun on a finished keyval", "destroyed default", "documentation just begun", "documentation with a text", "finished documentation of a section",
    "restriction just begun", "typed restriction", "finished restriction", "destroyed restriction", "restriction of a section just begun", "finished restriction of a section",
    "config under construction", "finished config", "config section just begun", "config section with a name", "finished config section", "config section begun in a finished config",
    "config keyval just begun", "config keyval with a name", "config keyval with a value", "finished config keyval", "config keyval finished with a bad value", "config keyval with an unknown name", "destroyed config keyval", "config keyval begun in a finished config", "no context" };
enum { NT = sizeof TN / sizeof *TN };
static bool make (Ctx &c, int n, W &w)
{
    w = W (); w.what = TN[n]; std::string s = TN[n]; auto has = [&] (const char *x) { return s.find (x) != std::string::npos; };
    if (s == "no context") return true;
    enum disir_status r = DISIR_STATUS_OK; disir_context *a = NULL;
    if (has ("config"))
    {
        bool whole = s == "finished config" || has ("a finished config");
        dc_config_begin (cmold (), &w.root); w.parent = w.root;
        if (whole) { disir_context *x = NULL; dc_begin (w.root, DISIR_CONTEXT_KEYVAL, &x); dc_set_name (x, "k", 1); dc_set_value_integer (x, 3); dc_finalize (&x); r = dc_config_finalize (&w.root, &w.cfg); if (r) { c.fail ("setup", "config: %s", st (r)); return false; } w.root = w.parent = dc_config_getcontext (w.cfg); w.pfin = true; }
        if (has ("keyval"))
        {
            w.k = CKV; dc_begin (w.root, DISIR_CONTEXT_KEYVAL, &a); w.t = a;
            if (has ("unknown")) dc_set_name (a, "zz", 2); else if (!has ("begun")) dc_set_name (a, "k", 1);
            if (has ("with a value") || has ("finished config keyval") || has ("destroyed")) dc_set_value_integer (a, 4);
            if (has ("bad value")) dc_set_value_integer (a, 40);
            if (has ("finished config keyval") || has ("bad value") || has ("destroyed")) { r = dc_finalize_keep_reference (a); w.fin = true; if ((r == DISIR_STATUS_OK) == has ("bad")) { c.fail ("setup", "%s: %s", w.what, st (r)); return false; } }
            if (has ("destroyed")) { disir_collection *col = NULL; disir_context *e = NULL; if (!dc_get_elements (w.root, &col)) { if (dc_collection_next (col, &e) == DISIR_STATUS_OK) dc_destroy (&e); dc_collection_finished (&col); } w.dest = true; }
        }
        else if (has ("section"))
        {
            w.k = CSEC; dc_begin (w.root, DISIR_CONTEXT_SECTION, &a); w.t = a; if (!has ("begun")) dc_set_name (a, "s", 1);
            if (has ("finished config section")) { disir_context *x = NULL; dc_begin (a, DISIR_CONTEXT_KEYVAL, &x); dc_set_name (x, "i", 1); dc_set_value_integer (x, 3); dc_finalize (&x); if ((r = dc_finalize_keep_reference (a))) { c.fail ("setup", "%s: %s", w.what, st (r)); return false; } w.fin = true; }
        }
        else { w.k = CONFIG; w.t = w.root; w.parent = NULL; w.fin = whole; w.pfin = false; }
        return true;
    }
    bool whole = s == "finished mold" || has ("a finished mold");
    dc_mold_begin (&w.root); w.parent = w.root; a = add_kv (w.root, "first", 1);
    auto seal = [&] { if ((r = dc_mold_finalize (&w.root, &w.mold))) return false; w.root = dc_mold_getcontext (w.mold); w.parent = w.root; w.pfin = true; return true; };
    if (s == "finished keyval of a finished mold") { dc_putcontext (&a); a = add_kv (w.root, "own", 2); if (!seal ()) return false; w.k = KV; w.t = a; w.fin = true; return true; }
    dc_putcontext (&a);
    if (whole && !seal ()) { c.fail ("setup", "mold: %s", st (r)); return false; }
    if (s == "mold under construction" || s == "finished mold") { w.k = MOLD; w.t = w.root; w.parent = NULL; w.fin = whole; w.pfin = false; }
    else if (has ("documentation"))
    {
        w.k = DOC; disir_context *p = NULL; dc_begin (w.root, DISIR_CONTEXT_SECTION, &p); dc_set_name (p, "sec", 3); w.parent = p; dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &w.t);
        if (!has ("begun")) dc_set_value_string (w.t, "text", 4);
        if (has ("finished")) { if ((r = dc_finalize_keep_reference (w.t))) { c.fail ("setup", "documentation: %s", st (r)); return false; } w.fin = true; }
    }
    else if (has ("restriction"))
    {
        disir_context *p = NULL;
        if (has ("section")) { w.k = SRES; dc_begin (w.root, DISIR_CONTEXT_SECTION, &p); dc_set_name (p, "sec", 3); } else { w.k = RES; p = add_kv (w.root, "own", 2); w.pfin = true; }
        w.parent = p; dc_begin (p, DISIR_CONTEXT_RESTRICTION, &w.t);
        if (!has ("begun")) { dc_set_restriction_type (w.t, DISIR_RESTRICTION_INC_ENTRY_MAX); dc_restriction_set_numeric (w.t, 7); }
        if (has ("finished") || has ("destroyed")) { if ((r = dc_finalize_keep_reference (w.t))) { c.fail ("setup", "restriction: %s", st (r)); return false; } w.fin = true; }
        if (has ("destroyed")) { disir_collection *col = NULL; disir_context *e = NULL; if (!dc_restriction_collection (p, &col)) { if (dc_collection_next (col, &e) == DISIR_STATUS_OK) dc_destroy (&e); dc_collection_finished (&col); } w.dest = true; }
    }
    else if (has ("default") && !has ("without"))
    {
        w.k = DEF; disir_context *p = NULL;
        if (has ("finished keyval")) { p = add_kv (w.root, "own", 2); w.pfin = true; } else { dc_begin (w.root, DISIR_CONTEXT_KEYVAL, &p); dc_set_name (p, "own", 3); dc_set_value_type (p, DISIR_VALUE_TYPE_INTEGER); }
        w.parent = p; dc_begin (p, DISIR_CONTEXT_DEFAULT, &w.t);
        if (!has ("begun")) dc_set_value_integer (w.t, 8);
        if (has ("finished default") || has ("destroyed")) { if ((r = dc_finalize_keep_reference (w.t))) { c.fail ("setup", "default: %s", st (r)); return false; } w.fin = true; }
        if (has ("destroyed")) { disir_collection *col = NULL; disir_context *e = NULL; if (!dc_get_default_contexts (p, &col)) { if (dc_collection_next (col, &e) == DISIR_STATUS_OK) dc_destroy (&e); dc_collection_finished (&col); } w.dest = true; }
    }
    else if (has ("keyval"))
    {
        w.k = KV; dc_begin (w.root, DISIR_CONTEXT_KEYVAL, &a); w.t = a;
        if (has ("name and") || has ("complete") || has ("finished") || has ("destroyed")) dc_set_name (a, "own", 3);
        if (!has ("begun")) dc_set_value_type (a, DISIR_VALUE_TYPE_INTEGER);
        if (has ("complete") || has ("finished keyval") || has ("destroyed")) dc_add_default_integer (a, 2, &V1);
        if (has ("finished") || has ("destroyed")) { r = dc_finalize_keep_reference (a); w.fin = true; if ((r == DISIR_STATUS_OK) == has ("without")) { c.fail ("setup", "%s: %s", w.what, st (r)); return false; } }
        if (has ("destroyed")) { disir_context *e = NULL; if (!dc_find_element (w.root, "own", 0, &e)) dc_destroy (&e); w.dest = true; }
    }
    else
    {
        w.k = SEC; dc_begin (w.root, DISIR_CONTEXT_SECTION, &a); w.t = a; if (!has ("begun")) dc_set_name (a, "sec", 3);
        if (has ("finished section") || has ("destroyed")) { if ((r = dc_finalize_keep_reference (a))) { c.fail ("setup", "section: %s", st (r)); return false; } w.fin = true; }
        if (has ("destroyed")) { disir_context *e = NULL; if (!dc_find_element (w.root, "sec", 0, &e)) dc_destroy (&e); w.dest = true; }
    }
    return true;
}
// ---- steps ------------------------------------------------------------------------------------------------
enum Verdict { YES, PROBLEM, NO };       // accepted; accepted but reported as invalid; refused without effect
struct Step { const char *name; std::function<enum disir_status (W &)> run; std::function<Verdict (const W &, const Facets &, Facets &t, Facets &p, Facets &r)> expect; };
typedef const W &CW; typedef const Facets &CF; typedef Facets &F;
static std::string get (const Facets &f, const char *k) { auto i = f.find (k); return i == f.end () ? "" : i->second; }
// two defaults introduced at one version
static bool twice (const std::string &d) { for (auto *v : { "@1.0 ", "@2.0 ", "@3.0 " }) { size_t p = d.find (v); if (p != std::string::npos && d.find (v, p + 1) != std::string::npos) return true; } return false; }
static bool raise (F r, const std::string &v) { if (r.count ("version") && r["version"] < v) r["version"] = v; return true; }
static bool held (const std::string &s, const std::string &x) { return (" " + s).find (x) != std::string::npos; }
static Verdict element (CW w, disir_context_type k, F t, F r, const char *name)
{
    if (w.k != MOLD && w.k != CONFIG && w.k != SEC && w.k != CSEC) return NO;
    (void) r; if (name) t["elements"] += strf ("%s:%s:OK ", k == DISIR_CONTEXT_KEYVAL ? "KEYVAL" : "SECTION", name); return YES;
}
static const std::vector<Step> &steps ()
{
    static std::vector<Step> v; if (!v.empty ()) return v;
    static const disir_context_type K[] = { DISIR_CONTEXT_CONFIG, DISIR_CONTEXT_MOLD, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_DOCUMENTATION, DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_UNKNOWN, (disir_context_type) 0, (disir_context_type) 99, (disir_context_type) -1 };
    static const char *KN[] = { "begin and drop a config", "begin and drop a mold", "begin and drop a section", "begin and drop a keyval", "begin and drop a documentation", "begin and drop a default", "begin and drop a restriction", "begin an unknown kind", "begin kind 0", "begin kind 99", "begin kind -1" };
    for (int i = 0; i < 11; i++)
        v.push_back ({ KN[i], [i] (W &w) { disir_context *x = NULL; enum disir_status s = dc_begin (w.t, K[i], &x); if (!s) dc_destroy (&x); else if (x) return DISIR_STATUS_OK; return s; },
            [i] (CW w, CF b, F t, F, F r) -> Verdict {
                switch (K[i])
                {
                case DISIR_CONTEXT_SECTION: case DISIR_CONTEXT_KEYVAL: return element (w, K[i], t, r, NULL);
                case DISIR_CONTEXT_DOCUMENTATION: return (w.k == MOLD || w.k == SEC || w.k == KV || w.k == CSEC || w.k == CKV) ? (get (b, "docs") == "" ? YES : NO) : (w.k == RES || w.k == SRES) ? YES : NO;
                case DISIR_CONTEXT_DEFAULT: return w.k == KV && get (b, "type") != "?" ? YES : NO;
                case DISIR_CONTEXT_RESTRICTION: return w.k == KV || w.k == SEC ? YES : NO;
                default: return NO;
                } } });
    // building blocks
    v.push_back ({ "add the element k", [] (W &w) { disir_context *x = NULL; enum disir_status s = dc_begin (w.t, DISIR_CONTEXT_KEYVAL, &x); if (s) return s; dc_set_name (x, w.k == CSEC ? "i" : "k", 1); if (w.in_config ()) dc_set_value_integer (x, 3); else { dc_set_value_type (x, DISIR_VALUE_TYPE_INTEGER); dc_add_default_integer (x, 3, &V2); } s = dc_finalize (&x); if (x) dc_destroy (&x); return s; },
        [] (CW w, CF b, F t, F, F r) -> Verdict {
            if (w.k == CONFIG) { int n = 0; std::string e = get (b, "elements"); for (size_t p = 0; (p = e.find ("KEYVAL:k:", p)) != std::string::npos; p++) n++; if (w.fin && n >= 2) return NO; return element (w, DISIR_CONTEXT_KEYVAL, t, r, "k"); }
            if (w.k == CSEC) { if (get (b, "name") == "-") return w.pfin && 0 ? NO : PROBLEM; if (w.fin && held (get (b, "elements"), "KEYVAL:i:")) return NO; return element (w, DISIR_CONTEXT_KEYVAL, t, r, "i"); }
            Verdict x = element (w, DISIR_CONTEXT_KEYVAL, t, r, "k"); if (x == YES) raise (w.k == MOLD ? t : r, "2.0"); return x; } });
    v.push_back ({ "name it own", [] (W &w) { return dc_set_name (w.t, w.k == CKV ? "e" : w.k == CSEC ? "s" : "own", w.k == CKV || w.k == CSEC ? 1 : 3); },
        [] (CW w, CF, F t, F, F) -> Verdict { if ((w.k != SEC && w.k != KV && w.k != CSEC && w.k != CKV) || w.fin) return NO; if (w.in_config ()) t["restrictions"] = "?"; t["name"] = w.k == CKV ? "e" : w.k == CSEC ? "s" : "own"; if (w.k == CKV) { t["type"] = "enum"; t["restrictions"] = "?"; t.erase ("value"); } return YES; } });
    v.push_back ({ "name it after the other kind", [] (W &w) { return dc_set_name (w.t, w.k == CKV ? "s" : "k", 1); },
        [] (CW w, CF, F t, F, F) -> Verdict { if ((w.k != SEC && w.k != KV) || w.fin) return NO; t["name"] = "k"; return YES; } });
    v.push_back ({ "name it nothing", [] (W &w) { return dc_set_name (w.t, NULL, 3); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    v.push_back ({ "name it with size 0", [] (W &w) { return dc_set_name (w.t, "abc", 0); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    for (int ty : { (int) INT, (int) STR, (int) ENUM, 0, 6, 99 })
        v.push_back ({ ty == INT ? "make it an integer" : ty == STR ? "make it a string" : ty == ENUM ? "make it an enum" : "give it an unknown type", [ty] (W &w) { return dc_set_value_type (w.t, (enum disir_value_type) ty); },
            [ty] (CW w, CF b, F t, F, F) -> Verdict { if (w.k != KV || ty == 0 || ty > 5) return NO; if (get (b, "type") == tname (ty)) return YES; if (w.fin || get (b, "defaults") != "") return NO; t["type"] = tname (ty); return YES; } });
    for (disir_version x : { V1, V3 })
    {
        v.push_back ({ x.sv_major == 1 ? "introduce it at 1.0" : "introduce it at 3.0", [x] (W &w) { disir_version y = x; return dc_add_introduced (w.t, &y); },
            [x] (CW w, CF b, F t, F, F) -> Verdict { if (w.k != SEC && w.k != DEF && w.k != DOC && w.k != RES && w.k != SRES) return NO; if (w.fin) return NO; t["introduced"] = ver (x); if (t.count ("restriction")) t["restriction"] = strf ("%s@%s-%s", get (b, "restriction").substr (0, get (b, "restriction").find ('@')).c_str (), ver (x).c_str (), get (b, "deprecated").c_str ()); return YES; } });
        v.push_back ({ x.sv_major == 1 ? "deprecate it at 1.0" : "deprecate it at 3.0", [x] (W &w) { disir_version y = x; return dc_add_deprecated (w.t, &y); },
            [x] (CW w, CF b, F t, F p, F r) -> Verdict { if (w.k != SEC && w.k != KV && w.k != RES && w.k != SRES) return NO; if (w.fin) { raise (w.parent == w.root ? p : r, ver (x)); if (w.k == RES || w.k == SRES) p["restrictions"] = "?"; } t["deprecated"] = ver (x); if (t.count ("restriction")) t["restriction"] = strf ("%s@%s-%s", get (b, "restriction").substr (0, get (b, "restriction").find ('@')).c_str (), get (b, "introduced").c_str (), ver (x).c_str ()); return YES; } });
    }
    v.push_back ({ "introduce it without a version", [] (W &w) { return dc_add_introduced (w.t, NULL); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    v.push_back ({ "set its version to 1.0", [] (W &w) { disir_version y = V1; return dc_set_version (w.t, &y); }, [] (CW w, CF, F t, F, F) -> Verdict { if (!w.top ()) return NO; t["version"] = "1.0"; if (w.k == MOLD) t["introduced"] = "1.0"; return YES; } });
    v.push_back ({ "set its version to 9.0", [] (W &w) { disir_version y = { 9, 0 }; return dc_set_version (w.t, &y); }, [] (CW w, CF, F t, F, F) -> Verdict { if (w.k != MOLD) return NO; t["version"] = t["introduced"] = "9.0"; return YES; } });
    // defaults
    for (int i = 0; i < 5; i++)
        for (disir_version x : { V1, V2 })
            v.push_back ({ (const char *[]) { "add a default integer", "add a default text", "add a default float", "add a default boolean", "add a default given as text" }[i],
                [i, x] (W &w) { disir_version y = x; switch (i) { case 0: return dc_add_default_integer (w.t, 5, &y); case 1: return dc_add_default_string (w.t, "5", 1, &y); case 2: return dc_add_default_float (w.t, 5, &y); case 3: return dc_add_default_boolean (w.t, 1, &y); default: return dc_add_default (w.t, "5", 1, &y); } },
                [i, x] (CW w, CF b, F t, F, F r) -> Verdict {
                    if (w.k != KV) return NO; std::string ty = get (b, "type"); bool text = ty == "string" || ty == "enum";
                    if (!(i == 0 ? ty == "integer" : i == 1 ? text : i == 4 ? ty == "integer" || ty == "string" : false)) return NO;
                    std::string d = get (b, "defaults"), one = "5@" + ver (x) + " "; bool dup = held (d, "@" + ver (x) + " ");
                    if (dup && w.fin) return NO;
                    if (dup) { t["defaults"] = "?"; return PROBLEM; }
                    t["defaults"] = x.sv_major == 1 ? one + d : d + one; raise (r, ver (x)); return YES; } });
    v.push_back ({ "document it", [] (W &w) { return dc_add_documentation (w.t, "doc", 3); }, [] (CW w, CF b, F t, F, F) -> Verdict { if (w.k != MOLD && w.k != SEC && w.k != KV && w.k != RES && w.k != SRES && w.k != CSEC && w.k != CKV) return NO; if (get (b, "docs") != "") return NO; t["docs"] = "doc doc doc "; return YES; } });
    v.push_back ({ "document it with nothing", [] (W &w) { return dc_add_documentation (w.t, NULL, 3); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    // restrictions
    for (int i = 0; i < 5; i++)
        v.push_back ({ (const char *[]) { "restrict it to at least 0", "restrict it to at most 4", "restrict it to a number", "restrict it to a range", "restrict it to a text" }[i],
            [i] (W &w) { disir_version y = V2; switch (i) { case 0: return dc_add_restriction_entries_min (w.t, 0, &y); case 1: return dc_add_restriction_entries_max (w.t, 4, &y); case 2: return dc_add_restriction_value_numeric (w.t, 6, "d", &y, NULL); case 3: return dc_add_restriction_value_range (w.t, 1, 6, "d", &y, NULL); default: return dc_add_restriction_value_enum (w.t, "five", "d", &y, NULL); } },
            [i] (CW w, CF b, F t, F, F r) -> Verdict {
                if (w.k != KV && !(w.k == SEC && i < 2)) return NO; std::string ty = get (b, "type"), rs = get (b, "restrictions");
                if ((i == 2 || i == 3) && ty != "integer") return NO;
                if (i == 4 && ty != "enum") return NO;
                const char *n = dc_restriction_enum_string ((enum disir_restriction_type []) { DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MAX, DISIR_RESTRICTION_EXC_VALUE_NUMERIC, DISIR_RESTRICTION_EXC_VALUE_RANGE, DISIR_RESTRICTION_EXC_VALUE_ENUM }[i]);
                bool dup = i < 2 && held (rs, strf ("%s(%d)@2.0", n, i ? 4 : 0)); if (dup && w.fin) return NO; if (dup) { t["restrictions"] = "?"; return PROBLEM; }
                t["restrictions"] += strf ("%s(%s)@2.0-0.0 ", n, (const char *[]) { "0", "4", "6", "1..6", "five" }[i]); raise (r, "2.0"); return YES; } });
    for (int i = 0; i < 6; i++)
        v.push_back ({ (const char *[]) { "make it a minimum", "make it a maximum", "make it an enumeration", "make it a range", "make it a number", "make it an unknown restriction" }[i],
            [i] (W &w) { return dc_set_restriction_type (w.t, (enum disir_restriction_type[]) { DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MAX, DISIR_RESTRICTION_EXC_VALUE_ENUM, DISIR_RESTRICTION_EXC_VALUE_RANGE, DISIR_RESTRICTION_EXC_VALUE_NUMERIC, DISIR_RESTRICTION_UNKNOWN }[i]); },
            [i] (CW w, CF, F t, F, F) -> Verdict { if ((w.k != RES && w.k != SRES) || w.fin || i == 5 || i == 2) return NO; if (w.k == SRES && i > 1) return NO; t["restriction"] = "?"; return YES; } });
    v.push_back ({ "set its number", [] (W &w) { return dc_restriction_set_numeric (w.t, 7); }, [] (CW w, CF b, F t, F p, F) -> Verdict { std::string r = get (b, "restriction"); if ((w.k != RES && w.k != SRES) || r.compare (0, 7, "UNKNOWN") == 0 || r.find ("RANGE") != std::string::npos) return NO; t["restriction"] = "?"; if (w.fin) p["restrictions"] = "?"; return YES; } });
    v.push_back ({ "set its range", [] (W &w) { return dc_restriction_set_range (w.t, 1, 2); }, [] (CW w, CF b, F t, F p, F) -> Verdict { if (get (b, "restriction").find ("RANGE") == std::string::npos || w.k != RES) return NO; t["restriction"] = "?"; if (w.fin) p["restrictions"] = "?"; return YES; } });
    v.push_back ({ "set its text", [] (W &w) { return dc_restriction_set_string (w.t, "x"); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    // finalize
    v.push_back ({ "finalize it", [] (W &w) { return dc_finalize_keep_reference (w.t); },
        [] (CW w, CF b, F t, F p, F r) -> Verdict {
            if (w.top () || w.fin) return NO;
            std::string n = get (b, "name"), d = get (b, "defaults"), in = get (b, "introduced");
            auto up = [&] { Facets &x = w.parent == w.root ? p : r; for (auto *k : { "introduced", "deprecated" }) if (b.count (k)) { raise (x, get (b, k)); } };
            switch (w.k)
            {
            case SEC: if (n == "-") return NO; p["elements"] += "SECTION:" + n + ":OK "; up (); return YES;
            case KV: if (n == "-") return NO; { bool bad = get (b, "type") == "?" || d == "" || get (b, "valid") != "OK" || twice (d); if (bad && w.pfin) return NO; if (bad) { p["elements"] += "KEYVAL:" + n + ":INVALID CONTEXT "; t["valid"] = "INVALID CONTEXT"; return PROBLEM; } p["elements"] += "KEYVAL:" + n + ":OK "; up (); return YES; }
            case DEF: { std::string pd = get (p, "defaults"); bool dup = held (pd, "@" + in + " "); if (dup && w.pfin) return NO; std::string one = get (b, "value") + "@" + in + " "; if (dup) { p["defaults"] = "?"; t["valid"] = "INVALID CONTEXT"; return PROBLEM; } p["defaults"] = in == "1.0" ? one + pd : pd + one; up (); return YES; }
            case DOC: p["docs"] = "?"; up (); return YES;
            case RES: case SRES: { std::string x = get (b, "restriction"); if (x.compare (0, 7, "UNKNOWN") == 0) { if (w.pfin) return NO; p["restrictions"] += x + " "; t["valid"] = "INVALID CONTEXT"; return PROBLEM; } p["restrictions"] += x + " "; up (); return YES; }
            case CSEC: if (n == "-") return NO; { bool bad = !held (get (b, "elements"), "KEYVAL:i:OK") || held (get (b, "elements").substr (std::min (get (b, "elements").size (), (size_t) 12)), "KEYVAL:i:") || get (b, "valid") != "OK"; if (bad && w.pfin) return NO; p["elements"] = "?"; if (bad) { t["valid"] = "INVALID CONTEXT"; return PROBLEM; } return YES; }
            case CKV: default: { std::string val = get (b, "value"); if (n == "-") return NO; bool bad = n == "k" ? val == "40" : n == "e" ? val != "a" && val != "b" : true; if (get (b, "type") != (n == "k" ? "integer" : "enum")) bad = true; if (bad && w.pfin) return NO; p["elements"] = "?"; if (bad) { t["valid"] = "INVALID CONTEXT"; return PROBLEM; } t["valid"] = "OK"; return YES; }
            } } });
    v.push_back ({ "finish it as a mold", [] (W &w) -> enum disir_status { disir_mold *m = NULL; disir_context *t = w.t; if (w.k == MOLD && !w.fin) return DISIR_STATUS_NO_ERROR; enum disir_status s = dc_mold_finalize (&t, &m); return s ? s : DISIR_STATUS_OK; }, [] (CW w, CF, F, F, F) -> Verdict { (void) w; return NO; } });
    v.push_back ({ "finish it as a config", [] (W &w) -> enum disir_status { disir_config *m = NULL; disir_context *t = w.t; if (w.k == CONFIG && !w.fin) return DISIR_STATUS_NO_ERROR; enum disir_status s = dc_config_finalize (&t, &m); return s ? s : DISIR_STATUS_OK; }, [] (CW w, CF, F, F, F) -> Verdict { (void) w; return NO; } });
    v.push_back ({ "set it to 4", [] (W &w) { return dc_set_value_integer (w.t, 4); },
        [] (CW w, CF b, F t, F p, F) -> Verdict { if (w.k == DEF && w.fin) p["defaults"] = "?"; if ((w.k == CKV && get (b, "type") == "integer") || (w.k == DEF && !w.fin)) { t["value"] = "4"; if (w.k == CKV && w.fin) t["valid"] = "?"; return get (b, "valid") == "OK" || w.k == DEF ? YES : PROBLEM; } if (w.k == DEF) { t["value"] = "4"; return YES; } if (w.k == CKV && get (b, "type") != "integer" && (!w.fin || get (b, "valid") != "OK")) { t["valid"] = t["value"] = t["type"] = "?"; return PROBLEM; } return NO; } });
    v.push_back ({ "set it to its default", [] (W &w) { return dc_keyval_set_default (w.t, NULL); }, [] (CW w, CF b, F t, F, F) -> Verdict { if (w.k != CKV || (get (b, "name") != "k" && get (b, "name") != "e") || get (b, "type") != (get (b, "name") == "k" ? "integer" : "enum")) return NO; t["value"] = get (b, "name") == "k" ? "1" : "a"; return YES; } });
    v.push_back ({ "mark it fatally wrong", [] (W &w) -> enum disir_status { if (w.dest) return DISIR_STATUS_NO_ERROR; if (w.t && !w.fin) return DISIR_STATUS_NO_ERROR; return dc_fatal_error (w.t, "wrong"); }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    v.push_back ({ "look around", [] (W &w) -> enum disir_status {        // queries of every sort: refused or answered, never harmful
            const char *s = NULL; int32_t n = 0; int64_t i; double d, e; uint8_t u; char b[16]; disir_collection *col = NULL; disir_context *x = NULL; disir_version ve = V1; int o = 0; enum disir_restriction_type rt; char *full = NULL;
            dc_get_value_string (w.t, &s, &n); dc_get_value_enum (w.t, &s, &n); dc_get_value_integer (w.t, &i); dc_get_value_float (w.t, &d); dc_get_value_boolean (w.t, &u); dc_get_value (w.t, sizeof b, b, &n); dc_get_default (w.t, &ve, sizeof b, b, &n);
            if (!dc_find_element (w.t, "k", 0, &x)) dc_putcontext (&x);
            if (!dc_find_elements (w.t, "k", &col)) dc_collection_finished (&col);
            if (!dc_query_resolve_context (w.t, "k", &x)) dc_putcontext (&x);
            dc_restriction_entries_minimum (w.t, &o); dc_restriction_entries_maximum (w.t, &o); dc_get_restriction_type (w.t, &rt); dc_restriction_get_string (w.t, &s); dc_restriction_get_range (w.t, &d, &e); dc_restriction_get_numeric (w.t, &d); dc_restriction_context_string (w.t);
            dc_context_type_string (w.t); dc_value_type_string (w.t); dc_context_error (w.t); if (w.t && !w.top () && !w.dest && !dc_resolve_root_name (w.t, &full)) free (full);
            return DISIR_STATUS_NO_ERROR; }, [] (CW, CF, F, F, F) -> Verdict { return NO; } });
    return v;
}
static std::string diff (const Facets &want, const Facets &got)
{
    Facets all = want; all.insert (got.begin (), got.end ());
    for (auto &kv : all)
    {
        std::string a = get (want, kv.first.c_str ()), b = get (got, kv.first.c_str ());
        if (a == "?") continue;
        if (a != b) return strf ("%s is '%s' instead of '%s'", kv.first.c_str (), b.c_str (), a.c_str ());
    }
    return "";
}
// A refused or accepted step and everything it could have touched
static bool one (Ctx &c, W &w, const Step &S)
{
    Facets t, p, r; bool live = w.t && !w.dest;
    if (live) { t = facets (w.t); if (w.parent && w.parent != w.t) p = facets (w.parent); if (w.root != w.parent && w.root != w.t) r = facets (w.root); }
    else if (w.root) r = facets (w.root);
    Facets t2 = t, p2 = p, r2 = r; Facets &root = w.root == w.parent ? p2 : r2;
    bool fin = !strcmp (S.name, "finalize it");
    Verdict want = live ? fin ? S.expect (w, t, t2, p2, r2) : S.expect (w, t, t2, p2, w.t == w.root ? t2 : root) : NO;
    if (w.k == MOLD && t2.count ("version")) t2["introduced"] = t2["version"];
    for (Facets *f : { &p2, &r2 }) if (get (*f, "kind") == "MOLD") (*f)["introduced"] = (*f)["version"];
    enum disir_status s = S.run (w); c.note ("%s: %s\n", S.name, st (s)); c.outcome (strf ("%s:%s", S.name, st (s)));
    if (s == DISIR_STATUS_NO_ERROR) s = DISIR_STATUS_NO_CAN_DO;
    if (!w.t && strcmp (S.name, "look around") && s != DISIR_STATUS_NO_CAN_DO && s != DISIR_STATUS_INVALID_ARGUMENT) { c.fail ("null", "%s on no context: %s", S.name, st (s)); return false; }
    if (w.dest && s == DISIR_STATUS_OK) { c.fail ("destroyed", "%s accepted on a %s", S.name, w.what); return false; }
    std::string sig = S.name; for (auto &ch : sig) if (ch == ' ') ch = '-';
    if (want == YES && s != DISIR_STATUS_OK) { c.fail (("refused-" + sig).c_str (), "%s: '%s' is refused: %s", w.what, S.name, st (s)); return false; }
    if (want == PROBLEM && s == DISIR_STATUS_OK) { c.fail (("unreported-" + sig).c_str (), "%s: '%s' passes without report", w.what, S.name); return false; }
    if (want == NO && s == DISIR_STATUS_OK) { c.fail (("accepted-" + sig).c_str (), "%s: '%s' is accepted", w.what, S.name); return false; }
    if (!live) { if (w.root) { std::string d = diff (r, facets (w.root)); if (!d.empty ()) { c.fail (("effect-" + sig).c_str (), "%s: '%s' (%s): %s", w.what, S.name, st (s), d.c_str ()); return false; } } return true; }
    if (want == PROBLEM && !fin) t2["valid"] = "?";
    if (want == PROBLEM) { p2["valid"] = "?"; }
    // naming or typing an invalid entry anew may make it valid again, and the other way round
    if (want == NO && !w.fin && !w.top ()) t2["valid"] = "?";
    if (want == YES && t2["valid"] == "INVALID CONTEXT") t2["valid"] = "?";
    Facets now = facets (w.t); std::string d = diff (t2, now);
    if (!t2.count ("value") && t.count ("value")) now.erase ("value"), d = diff (t2, now);
    if (d.empty () && !p.empty ()) { d = diff (p2, facets (w.parent)); if (!d.empty ()) d = "of its parent " + d; }
    if (d.empty () && !r.empty ()) { d = diff (r2, facets (w.root)); if (!d.empty ()) d = "of the root " + d; }
    if (!d.empty ()) { c.fail (("effect-" + sig).c_str (), "%s: after '%s' (%s) %s", w.what, S.name, st (s), d.c_str ()); return false; }
    if (fin && want != NO) w.fin = true;
    return true;
}
static bool close (Ctx &c, W &w)
{
    if (!w.root) return true;
    enum disir_status s = DISIR_STATUS_OK;
    if (w.top ()) { }
    else { if (w.dest || w.fin) dc_putcontext (&w.t); else dc_destroy (&w.t); if (w.t) { c.fail ("held", "the context is not given back"); return false; } }
    if (w.parent && w.parent != w.root && !w.top ()) { if ((w.k == RES || w.k == DEF) && w.pfin) dc_putcontext (&w.parent); else if (dc_finalize (&w.parent) != DISIR_STATUS_OK) dc_destroy (&w.parent); }
    // whatever was refused, the whole can still be finished and given back
    if (w.mold) { dc_putcontext (&w.root); s = disir_mold_finished (&w.mold); }
    else if (w.cfg) { dc_putcontext (&w.root); s = disir_config_finished (&w.cfg); }
    else if (w.in_config ())
    {
        disir_config *g = NULL; s = dc_config_finalize (&w.root, &g); if ((s != DISIR_STATUS_OK && s != DISIR_STATUS_INVALID_CONTEXT) || !g) { c.fail ("later", "finishing the config: %s", st (s)); return false; }
        disir_collection *col = NULL; enum disir_status v = disir_config_valid (g, &col); int n = col ? dc_collection_size (col) : 0; if (col) dc_collection_finished (&col);
        if (v != s || (n == 0) != (v == DISIR_STATUS_OK)) { c.fail ("later", "finishing the config reports %s, its validity is %s with %d invalid contexts", st (s), st (v), n); return false; }
        s = disir_config_finished (&g);
    }
    else
    {
        disir_mold *m = NULL; s = dc_mold_finalize (&w.root, &m); if ((s != DISIR_STATUS_OK && s != DISIR_STATUS_INVALID_CONTEXT) || !m) { c.fail ("later", "finishing the mold: %s", st (s)); return false; }
        disir_collection *col = NULL; enum disir_status v = disir_mold_valid (m, &col); int n = col ? dc_collection_size (col) : 0; if (col) dc_collection_finished (&col);
        if (v != s || (n == 0) != (v == DISIR_STATUS_OK)) { c.fail ("later", "finishing the mold reports %s, its validity is %s with %d invalid contexts", st (s), st (v), n); return false; }
        s = disir_mold_finished (&m);
    }
    if (s) { c.fail ("later", "giving everything back: %s", st (s)); return false; }
    return true;
}
static void sequence (Ctx &c, int depth)
{
    const std::vector<Step> &S = steps (); cmold (); int n = c.choose (NT); std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back (c.choose (S.size ()));
    c.note ("%s\n", TN[n]); std::string plan = TN[n]; for (int o : ops) plan += strf (",%d", o); c.risk ("crash-step");
    W w; bool ok; if (!make (c, n, w)) return;
    for (int o : ops) { ok = one (c, w, S[o]); if (!ok) return; if (depth == 1) c.state (plan); else if (w.t && !w.dest) { std::string k; for (auto &f : facets (w.t)) k += f.first + f.second + "|"; c.state (k + w.what); } }
    if (!close (c, w)) return;
    c.nontrivial (plan); c.validated ();
}
static void single (Ctx &c) { sequence (c, 1); }
static void pairs (Ctx &c) { sequence (c, 2); }
static void triples (Ctx &c) { sequence (c, 3); }
// Steps on children of a parent that is then finalized, dropped or destroyed; everything is given back in the end
static void leaks (Ctx &c)
{
    const std::vector<Step> &S = steps (); cmold (); int n = c.choose (NT), a = c.choose (S.size ()), b = c.choose (S.size () + 1) - 1; c.note ("%s: %s, %s\n", TN[n], S[a].name, b < 0 ? "" : S[b].name);
    c.risk ("crash-leak"); 
    W w; { W dummy; (void) dummy; }
    size_t h0 = heap ();
    if (!make (c, n, w)) return;
    { enum disir_status s = S[a].run (w); if (!strcmp (S[a].name, "finalize it") && !w.top () && w.t && !w.dest && (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT)) w.fin = true; }
    if (b >= 0) { enum disir_status s = S[b].run (w); if (!strcmp (S[b].name, "finalize it") && !w.top () && w.t && !w.dest && (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT)) w.fin = true; }
    if (!close (c, w)) return;
    size_t h1 = heap (); MC_CHECK (c, h0 == h1, "leak", "%s: after '%s' and '%s' %ld bytes are never given back", TN[n], S[a].name, b < 0 ? "nothing" : S[b].name, (long) (h1 - h0));
    c.nontrivial (strf ("%d,%d,%d", n, a, b));
}
int main (int argc, char **argv)
{
    Info i = { "C28", "exploration", "every target (kind of context x how far it is built x whether its parent is finished, 44 in all) x every step (begin and drop or add a child of each kind, naming, typing, versions, defaults, documentation, restrictions, finalizing, values, queries), all sequences of one and two steps (thorough: three), checked against a table of what makes sense and against an observation of the context, its parent and its root before and after; then the whole is finished and given back, with the allocated memory compared", { "steps are observed through the public getters", "finalizing contexts whose parent has been destroyed is part of C15", "documentation on sections and keyvals of configs is accepted by design" }, NULL, NULL };
    return mc::main (argc, argv, i, { { "single", 1, single }, { "pairs", 2, pairs }, { "leaks", 2, leaks }, { "triples", 3, triples, true } });
}
