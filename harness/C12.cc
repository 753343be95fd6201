// C12: malformed documents are refused cleanly and never accepted as valid
// technique: exhaustive enumeration of damaged documents (every structural edit and every pair of edits of a base document, every byte edit and truncation) read by the real JSON and TOML readers, against a reference interpretation of the document
#include "rt.h"
#include "json/json.h"
#include "tinytoml/toml.h"
#include <sstream>
#include <stdexcept>
using namespace mc; using namespace mm; using rt::instance; typedef rt::Doc File;
// ---- documents ----------------------------------------------------------------------------------
struct J
{
    enum K { NUL, BOO, NUM, BIG, REAL, TXT, ARR, OBJ, TIME } k; bool b; int64_t i; double d; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    J () : k (NUL), b (false), i (0), d (0) {}
    static J boo (bool v) { J j; j.k = BOO; j.b = v; return j; }
    static J num (int64_t v) { J j; j.k = NUM; j.i = v; return j; }
    static J big (const char *t) { J j; j.k = BIG; j.s = t; return j; }
    static J real (double v) { J j; j.k = REAL; j.d = v; return j; }
    static J txt (const std::string &v) { J j; j.k = TXT; j.s = v; return j; }
    static J arr (std::vector<J> v) { J j; j.k = ARR; j.a = v; return j; }
    static J obj (std::vector<std::pair<std::string, J>> v) { J j; j.k = OBJ; j.o = v; return j; }
    static J time () { J j; j.k = TIME; return j; }
    const J *get (const std::string &n) const { const J *r = nullptr; for (auto &x : o) if (x.first == n) r = &x.second; return r; }
    bool has (const std::string &n) const { const J *j = get (n); return j && j->k != NUL; }
    bool dup () const { for (auto &x : o) for (auto &y : o) if (&x != &y && x.first == y.first) return true; for (auto &x : o) if (x.second.dup ()) return true; for (auto &x : a) if (x.dup ()) return true; return false; }
};
static std::string jq (const std::string &s) { std::string r = "\""; for (unsigned char ch : s) if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32) r += strf ("\\u%04x", ch); else r += ch; return r + "\""; }
static std::string js (const J &j)
{
    std::string r;
    switch (j.k)
    {
    case J::NUL: return "null"; case J::BOO: return j.b ? "true" : "false"; case J::NUM: return strf ("%lld", (long long) j.i); case J::BIG: return j.s;
    case J::REAL: r = strf ("%.17g", j.d); return strpbrk (r.c_str (), ".e") ? r : r + ".0"; case J::TXT: return jq (j.s); case J::TIME: return "1979-05-27T07:32:00Z";
    case J::ARR: for (auto &x : j.a) r += (r.empty () ? "" : ", ") + js (x); return "[" + r + "]";
    default: for (auto &x : j.o) r += (r.empty () ? "" : ", ") + jq (x.first) + ": " + js (x.second); return "{" + r + "}";
    }
}
// TOML: inline everywhere except tables and arrays of tables, which use headers
static std::string tinline (const J &j)
{
    std::string r;
    if (j.k == J::ARR) { for (auto &x : j.a) r += (r.empty () ? "" : ", ") + tinline (x); return "[" + r + "]"; }
    if (j.k == J::OBJ) { for (auto &x : j.o) r += (r.empty () ? "" : ", ") + jq (x.first) + " = " + tinline (x.second); return "{" + r + "}"; }
    return js (j);
}
static void ttable (std::string &out, const J &j, const std::string &path)
{
    auto tables = [] (const J &x) { if (x.k != J::ARR || x.a.empty ()) return false; for (auto &y : x.a) if (y.k != J::OBJ) return false; return true; };
    for (auto &x : j.o) if (x.second.k != J::OBJ && !tables (x.second)) out += jq (x.first) + " = " + tinline (x.second) + "\n";
    for (auto &x : j.o)
    {
        std::string p = path + (path.empty () ? "" : ".") + jq (x.first);
        if (x.second.k == J::OBJ) { out += "[" + p + "]\n"; ttable (out, x.second, p); }
        else if (tables (x.second)) for (auto &y : x.second.a) { out += "[[" + p + "]]\n"; ttable (out, y, p); }
    }
}
static std::string toml_text (const J &root)
{
    std::string r; const J *v = root.get ("version"), *c = root.get ("config");
    if (v) { r = jq ("@DISIR_CONFIG_VERSION") + " = " + tinline (*v) + "\n"; }
    if (c) ttable (r, *c, "");
    return r;
}
static bool no_null (const J &j) { if (j.k == J::NUL) return false; for (auto &x : j.a) if (!no_null (x)) return false; for (auto &x : j.o) if (!no_null (x.second)) return false; return true; }
// ---- reference interpretation -----------------------------------------------------------------------
enum Verdict { NO, YES, ANY };
static void lower (Verdict &v, Verdict w) { if (w == NO || v == NO) v = NO; else if (w == ANY) v = ANY; }
// YES: digits.digits; ANY: the lenient parser may also take leading blanks, signs and anything after the second number
static Verdict version (const std::string &s, Ver &v)
{
    uint64_t n[2]; size_t i = 0; bool lax = false;
    for (int k = 0; k < 2; k++)
    {
        while (i < s.size () && (isspace ((unsigned char) s[i]) || s[i] == '+')) { i++; lax = true; }
        if (i < s.size () && s[i] == '-') { i++; lax = true; }
        size_t d = i; uint64_t x = 0; while (i < s.size () && isdigit ((unsigned char) s[i])) { if (x < (1ull << 40)) x = x * 10 + s[i] - '0'; i++; }
        if (i == d || x > 4294967295ull || (i > d && d && s[d - 1] == '-' && x)) return NO; n[k] = x;
        if (!k) { if (i >= s.size () || s[i] != '.') return NO; i++; }
    }
    v = Ver (n[0], n[1]); return lax || i != s.size () ? ANY : YES;
}
static Verdict value (const J &j, int t, Val &v, bool toml)
{
    if (j.k == J::NUM && t == INT) { v = Val::in (j.i); return YES; }
    if (j.k == J::NUM && t == FLT) { v = Val::fl ((double) j.i); return toml ? ANY : YES; }
    if (j.k == J::BIG && t == FLT) { v = Val::fl (strtod (j.s.c_str (), NULL)); return ANY; }
    if (j.k == J::REAL && t == FLT) { v = Val::fl (j.d); return YES; }
    if (j.k == J::BOO && t == BOOL) { v = Val::bo (j.b); return YES; }
    if (j.k == J::TXT && (t == STR || t == ENUM)) { v = t == STR ? Val::str (j.s) : Val::en (j.s); return YES; }
    return NO;
}
static void config_kids (const std::vector<MEl> &m, const J &j, std::vector<CEl> &out, Verdict &v, bool toml);
static void config_entry (const MEl &e, const J &j, std::vector<CEl> &out, Verdict &v, bool toml, bool nested)
{
    if (j.k == J::ARR) { if (nested) lower (v, ANY); for (auto &x : j.a) config_entry (e, x, out, v, toml, true); return; }
    CEl x; x.sec = e.sec; x.name = e.name;
    if (e.sec) { if (j.k != J::OBJ) { v = NO; return; } config_kids (e.kids, j, x.kids, v, toml); }
    else lower (v, value (j, e.t, x.val, toml));
    out.push_back (x);
}
static void config_kids (const std::vector<MEl> &m, const J &j, std::vector<CEl> &out, Verdict &v, bool toml)
{
    for (size_t n = 0; n < j.o.size (); n++)
    {
        auto &x = j.o[n]; bool later = false; for (size_t k = n + 1; k < j.o.size (); k++) later |= j.o[k].first == x.first;
        if (later) continue;     // the last of several equal keys counts
        const MEl *e = find (m, x.first);
        if (!e) { if (x.second.k != J::ARR || !x.second.a.empty ()) v = NO; else lower (v, ANY); continue; }
        config_entry (*e, x.second, out, v, toml, false);
    }
}
static Verdict config_of (const Mold &m, const J &root, Cfg &g, bool toml)
{
    Verdict v = YES; if (root.k != J::OBJ) return NO;
    if (toml && root.dup ()) v = ANY;
    const J *ver = root.get ("version"), *c = root.get ("config");
    if (!ver) { if (!toml) return NO; g.v = Ver (1, 0); }
    else { if (ver->k != J::TXT) return NO; lower (v, version (ver->s, g.v)); if (v == NO || mold_version (m) < g.v || g.v == Ver (0, 0)) return NO; }
    if (!c && toml) { }
    else if (!c || c->k != J::OBJ) return NO;
    else config_kids (m.kids, *c, g.kids, v, toml);
    if (v != NO && !valid (m, g)) v = NO;
    return v;
}
// ---- a read and its verdict ----------------------------------------------------------------------------
static Mold config_mold ()
{
    Mold m; auto many = [] (MEl e) { return e.with (Res::min (0)).with (Res::max (0)); };
    m.kids = { MEl::kv ("i", Val::in (1)).with (Res::range (-5, 100)), many (MEl::kv ("f", Val::fl (1.5))), many (MEl::kv ("b", Val::bo (true))), many (MEl::kv ("s", Val::str ("t"))),
        MEl::kv ("e", Val::en ("a")).with (Res::en ("a")).with (Res::en ("b", Ver (1, 1))).with (Res::min (0)), many (MEl::kv ("r", Val::in (1))),
        MEl::section ("sec", { MEl::kv ("x", Val::in (1)).with (Res::min (0)), many (MEl::kv ("y", Val::str ("q"), Ver (1, 2))), many (MEl::section ("in", { many (MEl::kv ("z", Val::bo (false))) })) }).with (Res::min (0)).with (Res::max (2)) };
    return m;
}
static J config_base ()
{
    return J::obj ({ { "version", J::txt ("1.2") }, { "config", J::obj ({ { "i", J::num (1) }, { "f", J::real (1.5) }, { "b", J::boo (true) }, { "s", J::txt ("t") }, { "e", J::txt ("a") },
        { "r", J::arr ({ J::num (1), J::num (2) }) }, { "sec", J::arr ({ J::obj ({ { "x", J::num (1) } }), J::obj ({ { "x", J::num (2) }, { "y", J::txt ("q") }, { "in", J::obj ({ { "z", J::boo (true) } }) } }) }) } }) } });
}
static disir_mold *the_mold () { static disir_mold *p; if (!p) { Steps S; if (build_mold (config_mold (), &p, &S) || S.any_bad) abort (); } return p; }
static void read_config (Ctx &c, const std::string &text, bool toml, Verdict v, const Cfg &want, const char *why)
{
    static const Mold M = config_mold (); disir_mold *mold = the_mold (); disir_instance *in = instance ();
    c.note ("%s as %s config, must %s: %s\n", quote (text).c_str (), toml ? "TOML" : "JSON", v == YES ? "be accepted" : v == NO ? "not be accepted" : "be handled", why);
    auto go = [&] (disir_config **out, FILE *f) {
        try { return toml ? dio_toml_unserialize_config (in, f, mold, out) : dio_json_unserialize_config (in, f, mold, out); }
        catch (std::exception &e) { c.fail ("exception", "an exception leaves the reader: %s", e.what ()); } };
    static bool warm[2]; if (!warm[toml]) { warm[toml] = true; File w; w.put (toml ? toml_text (config_base ()) : js (config_base ())); CfgH g; go (&g.p, w.f); disir_error_clear (in); w.put ("{"); CfgH h; go (&h.p, w.f); disir_error_clear (in); if (toml) { w.put ("i = 1979-05-27T07:32:00Z\n"); CfgH t; go (&t.p, w.f); disir_error_clear (in); } }
    c.risk (toml ? "crash-toml-config" : "crash-json-config");
    File f; f.put (text); enum disir_status s; disir_error_clear (in); size_t h0 = heap ();
    {
        CfgH g; s = go (&g.p, f.f);
        if (s == DISIR_STATUS_OK)
        {
            disir_collection *bad = NULL; MC_CHECK (c, g.p, "nothing", "success without a config");
            enum disir_status vs = disir_config_valid (g.p, &bad); if (bad) dc_collection_finished (&bad);
            MC_CHECK (c, vs == DISIR_STATUS_OK, "invalid-ok", "success, but the config is %s", st (vs));
            Cfg now; std::string err; MC_CHECK (c, dump_config (g.p, now, err), "dump", "%s", err.c_str ());
            MC_CHECK (c, valid (M, now), "model-invalid", "the accepted config %s violates the mold", show (now).c_str ());
            MC_CHECK (c, v != NO, toml ? "accepted-toml" : "accepted-json", "accepted as %s (%s)", show (now).c_str (), why);
            if (v == YES) MC_CHECK (c, now.v == want.v && by_name (now.kids) == by_name (want.kids), "content", "read as %s instead of %s", show (now).c_str (), show (want).c_str ());
        }
        else if (s == DISIR_STATUS_INVALID_CONTEXT) { if (g.p) MC_CHECK (c, disir_config_valid (g.p, NULL) == DISIR_STATUS_INVALID_CONTEXT, "not-marked", "the config handed out with %s is not marked invalid", st (s)); }
        else MC_CHECK (c, !g.p, "object-on-error", "a config is handed out with %s", st (s));
        MC_CHECK (c, v != YES || s == DISIR_STATUS_OK, toml ? "refused-toml" : "refused-json", "refused: %s", st (s));
    }
    disir_error_clear (in);
    MC_CHECK (c, heap () == h0, toml ? "leak-toml" : "leak-json", "reading (%s) keeps %zd bytes", st (s), (ssize_t) (heap () - h0));
    c.outcome (strf ("%s:%s", toml ? "toml" : "json", st (s))); c.nontrivial (text); c.validated ();
}
// ---- structural edits ------------------------------------------------------------------------------------
static const std::vector<J> &replacements (bool mold)
{
    static std::vector<J> c, m;
    if (c.empty ())
    {
        c = { J (), J::boo (true), J::boo (false), J::num (0), J::num (1), J::num (-6), J::num (2147483648ll), J::num (INT64_MAX), J::num (INT64_MIN), J::big ("9223372036854775808"), J::big ("99999999999999999999999"), J::big ("1e400"), J::real (1.5), J::real (1e300),
              J::txt (""), J::txt ("a"), J::txt ("b"), J::txt ("1.0"), J::txt ("1.1"), J::txt ("1.3"), J::txt ("1"), J::txt ("1.x"), J::txt ("-1.0"), J::txt ("1.2 "), J::txt ("4294967296.1"), J::txt ("true"), J::txt ("é\n"),
              J::arr ({}), J::arr ({ J::num (1) }), J::arr ({ J::num (1), J::txt ("a") }), J::arr ({ J::txt ("a"), J::num (1), J::boo (true) }), J::arr ({ J::txt ("a"), J::num (1), J::obj ({}) }), J::arr ({ J () }), J::arr ({ J::arr ({ J::num (1) }) }), J::arr ({ J::obj ({}), J::obj ({}), J::obj ({}) }), J::arr ({ J::obj ({}), J::num (1) }),
              J::obj ({}), J::obj ({ { "x", J::num (1) } }), J::obj ({ { "x", J::txt ("1") } }), J::obj ({ { "", J::num (1) } }), J::obj ({ { "X Y", J::num (1) } }), J::obj ({ { "q", J () } }), J::obj ({ { "q", J::obj ({ { "w", J::obj ({}) } }) } }), J::obj ({ { "y", J::arr ({}) } }), J::time () };
        m = { J (), J::boo (true), J::num (0), J::num (1), J::num (2), J::num (-1), J::num (2147483648ll), J::big ("18446744073709551615"), J::big ("1e400"), J::real (1.5), J::txt (""), J::txt ("x"), J::txt ("1.0"), J::txt ("2.5"), J::txt ("1.a"), J::txt ("0.0"), J::txt ("INTEGER"), J::txt ("STRING"), J::txt ("FLOAT"), J::txt ("ENUM"), J::txt ("BOOLEAN"), J::txt ("UNKNOWN"),
              J::txt ("MINIMUM_ENTRIES"), J::txt ("MAXIMUM_ENTRIES"), J::txt ("RANGE"), J::txt ("NUMERIC"), J::arr ({}), J::arr ({ J::num (1) }), J::arr ({ J::num (1), J::num (2) }), J::arr ({ J::num (2), J::num (1) }), J::arr ({ J::txt ("a"), J::num (1) }), J::arr ({ J::num (1), J () }), J::arr ({ J::obj ({}) }), J::arr ({ J::obj ({ { "value", J::num (1) } }) }), J::arr ({ J::obj ({ { "value", J::num (1) } }), J::obj ({ { "value", J::num (2) } }) }),
              J::obj ({}), J::obj ({ { "a", J::num (1) } }), J::obj ({ { "value", J::num (1) } }), J::obj ({ { "elements", J::obj ({}) } }), J::obj ({ { "type", J::txt ("INTEGER") } }), J::obj ({ { "type", J::txt ("INTEGER") }, { "defaults", J::arr ({ J::obj ({ { "value", J::num (3) } }) }) } }), J::obj ({ { "defaults", J::arr ({ J::obj ({ { "value", J::num (3) } }) }) } }),
              J::obj ({ { "type", J::txt ("MAXIMUM_ENTRIES") }, { "value", J::num (4) } }), J::obj ({ { "type", J::txt ("RANGE") }, { "value", J::arr ({ J::num (0), J::real (4.5) }) }, { "introduced", J::txt ("1.0") } }), J::obj ({ { "type", J::txt ("ENUM") }, { "value", J::txt ("z") } }), J::obj ({ { "type", J::txt ("NUMERIC") }, { "value", J::real (1.5) } }) };
    }
    return mold ? m : c;
}
struct At { J *j; std::vector<std::pair<std::string, J>> *obj; std::vector<J> *arr; size_t idx; };
static void nodes (J &j, std::vector<At> &out, std::vector<std::pair<std::string, J>> *po = nullptr, std::vector<J> *pa = nullptr, size_t idx = 0)
{
    out.push_back ({ &j, po, pa, idx });
    for (size_t n = 0; n < j.a.size (); n++) nodes (j.a[n], out, nullptr, &j.a, n);
    for (size_t n = 0; n < j.o.size (); n++) nodes (j.o[n].second, out, &j.o, nullptr, n);
}
static int size (J &j) { std::vector<At> v; nodes (j, v); return v.size (); }
static const std::vector<std::string> &names (bool mold) { static std::vector<std::string> c = { "", "i", "s", "sec", "x", "unknown", "I", "@", "version", "config", "a b" }, m = { "", "b", "s", "type", "value", "values", "defaults", "elements", "introduced", "deprecated", "restrictions", "documentation", "mold", "Upper" }; return mold ? m : c; }
static int edit_count (bool mold) { return replacements (mold).size () + 5 + names (mold).size (); }
// the second edit of a pair is one of a few in the quick tier
static bool few_off;
static int pick (Ctx &c, int d, bool mold)
{
    if ((!d && !mold) || few_off || c.thorough ()) return c.choose (edit_count (mold));
    int r = replacements (mold).size (), few[] = { 0, mold ? 3 : 4, mold ? 10 : 14, mold ? 26 : 27, mold ? 35 : 36, r, r + 4 };
    return few[c.choose (mold && d ? 4 : 7)];
}
// performs edit `e` at node `n`; false when it does not apply
static bool edit (J &root, int n, int e, bool mold)
{
    std::vector<At> v; nodes (root, v); if (n >= (int) v.size ()) return false; At a = v[n]; auto &R = replacements (mold); J old = *a.j;
    if (e < (int) R.size ()) { if (js (old) == js (R[e])) return false; *a.j = R[e]; return true; }
    e -= R.size ();
    if (e == 0) { if (a.obj) a.obj->erase (a.obj->begin () + a.idx); else if (a.arr) a.arr->erase (a.arr->begin () + a.idx); else return false; return true; }
    if (e == 1) { *a.j = J::arr ({ old }); return true; }
    if (e == 2) { *a.j = J::arr ({ J::arr ({ old }) }); return true; }
    if (e == 3) { *a.j = J::obj ({ { "x", old } }); return true; }
    if (e == 4) { if (a.obj) a.obj->push_back ((*a.obj)[a.idx]); else if (a.arr) { J k = old; a.arr->push_back (k); } else return false; return true; }
    e -= 5; if (!a.obj) return false;
    if ((*a.obj)[a.idx].first == names (mold)[e]) return false;
    (*a.obj)[a.idx].first = names (mold)[e]; return true;
}
static bool has_time (const J &j) { if (j.k == J::TIME) return true; for (auto &x : j.a) if (has_time (x)) return true; for (auto &x : j.o) if (has_time (x.second)) return true; return false; }
static bool has_nul (const J &j) { if (j.s.find ('\0') != std::string::npos) return true; for (auto &x : j.a) if (has_nul (x)) return true; for (auto &x : j.o) if (x.first.find ('\0') != std::string::npos || has_nul (x.second)) return true; return false; }
static bool has_big (const J &j) { if (j.k == J::BIG) return true; for (auto &x : j.a) if (has_big (x)) return true; for (auto &x : j.o) if (has_big (x.second)) return true; return false; }
static void judge_config (Ctx &c, const J &root, bool toml)
{
    static const Mold M = config_mold (); Cfg g; Verdict v = config_of (M, root, g, toml);
    if (toml && (!no_null (root) || root.k != J::OBJ)) c.prune ();
    if (toml && root.get ("config") && root.get ("config")->k != J::OBJ) c.prune ();
    if (has_time (root) && !toml) v = NO;    // not JSON at all
    if (v == YES && has_big (root)) v = ANY;
    if (toml)
    {
        // the parser has rules of its own (mixed arrays, overflow, duplicates): it may refuse, but what it hands on must be judged right
        bool mixed = false; std::function<void (const J &, int)> walk = [&] (const J &j, int d) { if (j.k == J::BIG) mixed = true; if (j.k == J::ARR) for (auto &x : j.a) if (x.k != j.a[0].k) mixed = true; for (auto &x : j.a) walk (x, d + 1); for (auto &x : j.o) { if (x.first.empty ()) mixed = true; walk (x.second, d + 1); } };
        walk (root, 0); if (v == YES && mixed) v = ANY;
    }
    read_config (c, toml ? toml_text (root) : js (root), toml, v, g, "structural edit");
}
static void config_edits (Ctx &c, int depth)
{
    few_off = depth == 1; bool toml = c.choose (2); J root = config_base ();
    for (int d = 0; d < depth; d++) { int n = c.choose (size (root)), e = pick (c, d, false); if (!edit (root, n, e, false)) c.prune (); }
    judge_config (c, root, toml);
}
// ---- molds ---------------------------------------------------------------------------------------------------
static Verdict attr_version (const J &j, const char *name, bool &has, Ver &v)
{
    const J *x = j.get (name); has = false; if (!x) return YES; if (x->k == J::NUL) return ANY;
    if (x->k != J::TXT) return NO; Verdict r = version (x->s, v); if (r == NO) return NO;
    has = true; return v == Ver (0, 0) ? ANY : r;
}
static Verdict attr_doc (const J &j, std::vector<mm::Doc> &docs) { const J *x = j.get ("documentation"); if (!x) return YES; if (x->k == J::NUL) return ANY; if (x->k != J::TXT) return NO; docs.push_back ({ Ver (1, 0), x->s }); return YES; }
static void mold_kids (const J &j, std::vector<MEl> &out, Verdict &v);
static void restriction (const J &j, MEl &e, Verdict &v)
{
    if (j.k != J::OBJ) { v = NO; return; }
    Res r; bool h; Ver x; const J *t = j.get ("type"), *val = j.get ("value"); if (!t || t->k != J::TXT || !val) { v = NO; return; }
    static const char *n[] = { "", "MINIMUM_ENTRIES", "MAXIMUM_ENTRIES", "ENUM", "RANGE", "NUMERIC" }; static const int kinds[] = { 0, RMIN, RMAX, RENUM, RRANGE, RNUM };
    int k = 0; for (int i = 1; i < 6; i++) if (t->s == n[i]) k = i; if (!k) { v = NO; return; } r.kind = kinds[k];
    lower (v, attr_version (j, "introduced", h, x)); if (h) r.in = x;
    lower (v, attr_version (j, "deprecated", h, x)); if (h) { r.hasdep = true; r.dep = x; if (r.dep <= r.in) lower (v, ANY); }
    lower (v, attr_doc (j, r.docs));
    auto isnum = [] (const J &q) { return q.k == J::NUM || q.k == J::REAL || q.k == J::BIG; }; auto dbl = [] (const J &q) { return q.k == J::NUM ? (double) q.i : q.k == J::REAL ? q.d : strtod (q.s.c_str (), NULL); };
    if (k <= 2) { if (val->k != J::NUM) { v = NO; return; } r.x = (double) val->i; if (val->i < 0 || val->i > INT32_MAX) lower (v, ANY); for (auto &o : e.res) if (o.kind == r.kind && o.in == r.in) v = NO; }
    if (k > 2 && e.sec) { v = NO; return; }
    if (k == 3) { if (e.t != ENUM || val->k != J::TXT) { v = NO; return; } r.s = val->s; if (r.s.empty ()) lower (v, ANY); for (auto &o : e.res) if (o.kind == RENUM && o.s == r.s) lower (v, ANY); }
    if (k >= 4 && e.t != INT && e.t != FLT) { v = NO; return; }
    if (k == 4) { if (val->k != J::ARR || val->a.size () != 2 || !isnum (val->a[0]) || !isnum (val->a[1])) { v = NO; return; } r.x = dbl (val->a[0]); r.y = dbl (val->a[1]); if (r.x > r.y) { v = NO; return; } if (r.x == r.y) lower (v, ANY); }
    if (k == 5) { if (!isnum (*val)) { v = NO; return; } r.x = dbl (*val); }
    e.res.push_back (r);
}
static void mold_element (const std::string &name, const J &j, std::vector<MEl> &out, Verdict &v)
{
    if (j.k != J::OBJ) { v = NO; return; }
    MEl e; e.name = name; bool h; Ver x; if (name.empty () || !name_ok (name)) v = NO;
    lower (v, attr_doc (j, e.docs));
    if (j.has ("elements"))
    {
        e.sec = true; if (j.has ("type") || j.has ("defaults")) lower (v, ANY);
        lower (v, attr_version (j, "introduced", h, x)); if (h) { e.hasin = true; e.in = x; }
        if (j.get ("elements")->k != J::OBJ) { v = NO; return; } mold_kids (*j.get ("elements"), e.kids, v);
    }
    else
    {
        const J *t = j.get ("type"), *d = j.get ("defaults"); if (!t || t->k != J::TXT || !d || d->k != J::ARR || d->a.empty ()) { v = NO; return; }
        static const char *n[] = { "STRING", "INTEGER", "FLOAT", "BOOLEAN", "ENUM" }; static const int ts[] = { STR, INT, FLT, BOOL, ENUM }; int k = -1; for (int i = 0; i < 5; i++) if (t->s == n[i]) k = i; if (k < 0) { v = NO; return; } e.t = ts[k];
        for (auto &q : d->a)
        {
            Def f; if (q.k != J::OBJ || !q.get ("value")) { v = NO; return; } lower (v, value (*q.get ("value"), e.t, f.val, false)); lower (v, attr_version (q, "introduced", h, x)); if (h) f.v = x;
            for (auto &o : e.defs) if (o.v == f.v) v = NO;
            e.defs.push_back (f);
        }
        if (j.has ("introduced")) lower (v, ANY);
    }
    lower (v, attr_version (j, "deprecated", h, x)); if (h) { e.hasdep = true; e.dep = x; if (e.dep <= e.introduced ()) lower (v, ANY); }
    const J *r = j.get ("restrictions"); if (r && r->k != J::NUL) { if (r->k != J::ARR) { v = NO; return; } for (auto &q : r->a) restriction (q, e, v); } else if (r) lower (v, ANY);
    out.push_back (e);
}
static void mold_kids (const J &j, std::vector<MEl> &out, Verdict &v)
{
    for (size_t n = 0; n < j.o.size (); n++) { bool later = false; for (size_t k = n + 1; k < j.o.size (); k++) later |= j.o[k].first == j.o[n].first; if (!later) mold_element (j.o[n].first, j.o[n].second, out, v); }
}
static Verdict mold_of (const J &root, Mold &m)
{
    if (root.k != J::OBJ) return NO; Verdict v = YES; const J *e = root.get ("mold"); if (!e || e->k != J::OBJ) return NO;
    lower (v, attr_doc (root, m.docs)); mold_kids (*e, m.kids, v); if (root.dup ()) lower (v, ANY); return v;
}
// bounds on integer keyvals count with their whole part
static void whole (std::vector<MEl> &k) { for (auto &e : k) { for (auto &r : e.res) if (r.kind != RENUM && !(e.t == FLT && r.kind != RMIN && r.kind != RMAX)) { r.x = trunc (r.x); r.y = trunc (r.y); } whole (e.kids); } }
static const std::vector<Ver> PROBE = { Ver (0, 1), Ver (1, 0), Ver (1, 5), Ver (2, 0), Ver (3, 0), Ver (9, 0) };
static void read_mold (Ctx &c, const std::string &text, Verdict v, Mold want, const char *why)
{
    disir_instance *in = instance (); c.note ("%s as JSON mold, must %s: %s\n", quote (text).c_str (), v == YES ? "be accepted" : v == NO ? "not be accepted" : "be handled", why);
    auto go = [&] (disir_mold **out, FILE *f) { try { return dio_json_unserialize_mold (in, f, out); } catch (std::exception &e) { c.fail ("exception", "an exception leaves the reader: %s", e.what ()); } };
    static bool warm; if (!warm) { warm = true; File w; MoldH m, n, o; w.put ("{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1}]}}}"); go (&m.p, w.f); w.put ("{"); go (&n.p, w.f); w.put ("{\"mold\":{\"a\":{\"type\":\"x\"}}}"); go (&o.p, w.f); disir_error_clear (in); }
    c.risk ("crash-json-mold"); File f; f.put (text); enum disir_status s; disir_error_clear (in); size_t h0 = heap ();
    {
        MoldH m; s = go (&m.p, f.f);
        if (s == DISIR_STATUS_OK)
        {
            MC_CHECK (c, m.p, "nothing", "success without a mold"); disir_collection *bad = NULL; enum disir_status vs = disir_mold_valid (m.p, &bad); if (bad) dc_collection_finished (&bad);
            MC_CHECK (c, vs == DISIR_STATUS_OK, "invalid-ok", "success, but the mold is %s", st (vs));
            MC_CHECK (c, v != NO, "accepted-mold", "accepted (%s)", why);
            if (v == YES)
            {
                Mold now; std::string err; MC_CHECK (c, dump_mold (m.p, now, PROBE, err), "dump", "%s", err.c_str ());
                whole (want.kids); whole (now.kids); std::string a = show (canon (want, PROBE, true)), b = show (canon (now, {}, true)); Mold z = now; std::stable_sort (z.kids.begin (), z.kids.end (), [] (const MEl &p, const MEl &q) { return p.name < q.name; }); b = show (z);
                MC_CHECK (c, a == b, "content", "read as\n%s instead of\n%s", b.c_str (), a.c_str ());
            }
        }
        else if (s == DISIR_STATUS_INVALID_CONTEXT) { if (m.p) MC_CHECK (c, disir_mold_valid (m.p, NULL) == DISIR_STATUS_INVALID_CONTEXT, "not-marked", "the mold handed out with %s is not marked invalid", st (s)); }
        else MC_CHECK (c, !m.p, "object-on-error", "a mold is handed out with %s", st (s));
        MC_CHECK (c, v != YES || s == DISIR_STATUS_OK, "refused-mold", "refused: %s", st (s));
    }
    disir_error_clear (in);
    MC_CHECK (c, heap () == h0, "leak-mold", "reading (%s) keeps %zd bytes", st (s), (ssize_t) (heap () - h0));
    c.outcome (strf ("mold:%s", st (s))); c.nontrivial (text); c.validated ();
}
static J mold_base ()
{
    return J::obj ({ { "documentation", J::txt ("doc") }, { "mold", J::obj ({
        { "i", J::obj ({ { "type", J::txt ("INTEGER") }, { "documentation", J::txt ("d") }, { "deprecated", J::txt ("3.0") }, { "defaults", J::arr ({ J::obj ({ { "value", J::num (1) }, { "introduced", J::txt ("1.0") } }), J::obj ({ { "value", J::num (2) }, { "introduced", J::txt ("1.5") } }) }) },
            { "restrictions", J::arr ({ J::obj ({ { "type", J::txt ("RANGE") }, { "introduced", J::txt ("1.0") }, { "deprecated", J::txt ("2.0") }, { "documentation", J::txt ("r") }, { "value", J::arr ({ J::num (0), J::num (5) }) } }), J::obj ({ { "type", J::txt ("MAXIMUM_ENTRIES") }, { "introduced", J::txt ("1.0") }, { "value", J::num (3) } }) }) } }) },
        { "e", J::obj ({ { "type", J::txt ("ENUM") }, { "defaults", J::arr ({ J::obj ({ { "value", J::txt ("a") } }) }) }, { "restrictions", J::arr ({ J::obj ({ { "type", J::txt ("ENUM") }, { "value", J::txt ("a") } }) }) } }) },
        { "s", J::obj ({ { "introduced", J::txt ("1.1") }, { "deprecated", J::txt ("3.0") }, { "documentation", J::txt ("sd") }, { "restrictions", J::arr ({ J::obj ({ { "type", J::txt ("MINIMUM_ENTRIES") }, { "introduced", J::txt ("1.0") }, { "value", J::num (0) } }) }) },
            { "elements", J::obj ({ { "f", J::obj ({ { "type", J::txt ("FLOAT") }, { "defaults", J::arr ({ J::obj ({ { "value", J::real (1.5) }, { "introduced", J::txt ("1.0") } }) }) }, { "restrictions", J::arr ({ J::obj ({ { "type", J::txt ("NUMERIC") }, { "value", J::real (1.5) } }) }) } }) } }) } }) } }) } });
}
static void mold_edits (Ctx &c, int depth)
{
    few_off = depth == 1; J root = mold_base (); for (int d = 0; d < depth; d++) { int n = c.choose (size (root)), e = pick (c, d, true); if (!edit (root, n, e, true)) c.prune (); }
    Mold m; Verdict v = mold_of (root, m); if (has_time (root)) v = NO; if (v == YES && has_big (root)) v = ANY; read_mold (c, js (root), v, m, "structural edit");
}
// ---- bytes -----------------------------------------------------------------------------------------------------
static J from_json (const Json::Value &v)
{
    switch (v.type ())
    {
    case Json::nullValue: return J (); case Json::intValue: return J::num (v.asInt64 ()); case Json::uintValue: return v.isInt64 () ? J::num (v.asInt64 ()) : J::big (strf ("%llu", (unsigned long long) v.asUInt64 ()).c_str ());
    case Json::realValue: return J::real (v.asDouble ()); case Json::stringValue: return J::txt (v.asString ()); case Json::booleanValue: return J::boo (v.asBool ());
    case Json::arrayValue: { J j = J::arr ({}); for (unsigned i = 0; i < v.size (); i++) j.a.push_back (from_json (v[i])); return j; }
    default: { J j = J::obj ({}); for (auto &n : v.getMemberNames ()) j.o.push_back ({ n, from_json (v[n]) }); return j; }
    }
}
static J from_toml (const toml::Value &v)
{
    switch (v.type ())
    {
    case toml::Value::BOOL_TYPE: return J::boo (v.as<bool> ()); case toml::Value::INT_TYPE: return J::num (v.as<int64_t> ()); case toml::Value::DOUBLE_TYPE: return J::real (v.as<double> ()); case toml::Value::STRING_TYPE: return J::txt (v.as<std::string> ());
    case toml::Value::ARRAY_TYPE: { J j = J::arr ({}); for (auto &x : v.as<toml::Array> ()) j.a.push_back (from_toml (x)); return j; }
    case toml::Value::TABLE_TYPE: { J j = J::obj ({}); for (auto &x : v.as<toml::Table> ()) j.o.push_back ({ x.first, from_toml (x.second) }); return j; }
    default: return J::time ();
    }
}
static bool control (const J &j, const char *top) { for (auto &x : j.o) if (x.first != top && x.first[0] == '@') return true; return false; }
static void judge_text (Ctx &c, int kind, const std::string &t)
{
    if (kind == 2)
    {
        Json::Reader r; Json::Value root; Mold m; Verdict v = NO; const char *why = "not JSON";
        if (r.parse (t.data (), t.data () + t.size (), root)) { J j = from_json (root); v = mold_of (j, m); if (has_nul (j) || t.find ('\0') != std::string::npos) v = ANY; why = "byte edit"; }   // the keywords of a mold end at a NUL
        read_mold (c, t, v, m, why); return;
    }
    static const Mold M = config_mold (); Cfg g; Verdict v = NO; const char *why = "does not parse";
    if (kind == 0) { Json::Reader r; Json::Value root; if (r.parse (t.data (), t.data () + t.size (), root)) { v = config_of (M, from_json (root), g, false); why = "byte edit"; } }
    else
    {
        try
        {
            std::istringstream s (t); toml::ParseResult p = toml::parse (s);
            if (p.valid ())
            {
                J j = from_toml (p.value), root = J::obj ({}), conf = J::obj ({});
                for (auto &x : j.o) { if (x.first == "@DISIR_CONFIG_VERSION") root.o.push_back ({ "version", x.second }); else conf.o.push_back (x); }
                root.o.push_back ({ "config", conf }); v = config_of (M, root, g, true); why = "byte edit"; if (v == YES && has_time (j)) v = ANY;
            }
        }
        catch (std::exception &e) { why = "does not parse (exception)"; }
    }
    read_config (c, t, kind == 1, v == YES && t.find ('\0') != std::string::npos ? ANY : v, g, why);
}
static const std::string &base_text (int kind) { static std::string t[3]; if (t[0].empty ()) { t[0] = js (config_base ()); t[1] = toml_text (config_base ()); t[2] = js (mold_base ()); } return t[kind]; }
static const std::string &alphabet () { static const char t[] = "\0\x01\t\n\r \"'\\/{}[]:,.=#@+-0129eEtnaZ_\x7f\x80\xc3\xe2\xff"; static std::string a (t, sizeof t - 1); return a; }
static void bytes (Ctx &c)
{
    int kind = c.choose (3); std::string t = base_text (kind); int at = c.choose (t.size () + 1), what = c.choose (c.thorough () ? 4 : 4);
    if (what == 0) t.resize (at);
    else if (what == 1) { if (at >= (int) t.size ()) c.prune (); t.erase (at, 1); }
    else
    {
        unsigned char ch = c.thorough () ? (unsigned char) c.choose (256) : (unsigned char) alphabet ()[c.choose (alphabet ().size ())];
        if (what == 2) t.insert (at, 1, ch); else { if (at >= (int) t.size () || (unsigned char) t[at] == ch) c.prune (); t[at] = ch; }
    }
    judge_text (c, kind, t);
}
static void byte_pairs (Ctx &c)
{
    int kind = c.choose (3); std::string t = base_text (kind); int a = c.choose (t.size ()), b = a + 1 + c.choose (t.size () - a); if (b >= (int) t.size ()) c.prune ();
    int what = c.choose (3); if (what == 0) { t.erase (b, 1); t.erase (a, 1); } else if (what == 1) std::swap (t[a], t[b]); else t.erase (a, b - a);
    judge_text (c, kind, t);
}
// every short document over a small alphabet
static void tiny (Ctx &c, int n)
{
    static const char *tok[] = { "{", "}", "[", "]", ":", ",", "\"version\"", "\"1.2\"", "\"config\"", "\"mold\"", "\"i\"", "1", "null", "=", "\n", "i", "\"", "#" };
    int kind = c.choose (3); std::string t; for (int i = 0; i < n; i++) { int k = c.choose (19); if (!k) break; t += tok[k - 1]; }
    judge_text (c, kind, t);
}
int main (int argc, char **argv)
{
    Info i = { "C12", "exploration",
        "a distinct damaged document: every structural edit and every pair of edits of a base config in JSON and TOML and of a base mold in JSON; every truncation, deletion, insertion and substitution of a byte (quick: 40 byte values, thorough: all); every token sequence up to a length",
        { "what the third party parsers accept as a document is taken as the document", "several equal keys, nested arrays, null attributes and integers for floats in TOML may be refused or accepted" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "config-edits", 2, [] (Ctx &c) { config_edits (c, 1); } },
        { "config-pairs", 3, [] (Ctx &c) { config_edits (c, 2); } },
        { "mold-edits", 2, [] (Ctx &c) { mold_edits (c, 1); } },
        { "mold-pairs", 3, [] (Ctx &c) { mold_edits (c, 2); } },
        { "bytes", 3, bytes }, { "byte-pairs", 2, byte_pairs, true },
        { "tiny", 3, [] (Ctx &c) { tiny (c, c.thorough () ? 6 : 4); } } });
}
