// C16: comparison reports a difference exactly when there is one
// technique: exhaustive exploration of ordered pairs of configs, molds and their parts within small edits of each other through the real dc_compare, against structural equality of the reference models
#include "molds.h"
#include <map>
using namespace mc; using namespace mm;

// ---- structural identity --------------------------------------------------------------------------
template <class T> static void sort_docs (T &d) { std::stable_sort (d.begin (), d.end (), [] (const Doc &a, const Doc &b) { return a.v < b.v; }); }
static std::vector<MEl> ident (std::vector<MEl> k)
{
    for (auto &e : k)
    {
        std::stable_sort (e.defs.begin (), e.defs.end (), [] (const Def &a, const Def &b) { return a.v < b.v; });
        sort_docs (e.docs); for (auto &r : e.res) { sort_docs (r.docs); if (r.hasdep && r.dep == Ver (0, 0)) r.hasdep = false; }
        if (e.sec && !e.hasin) { e.hasin = true; e.in = Ver (1, 0); }
        if (!e.sec) e.hasin = false;
        e.kids = ident (e.kids);
    }
    std::stable_sort (k.begin (), k.end (), [] (const MEl &a, const MEl &b) { return a.name < b.name; });
    return k;
}
static std::string key (const Mold &m) { Mold x = m; x.kids = ident (m.kids); sort_docs (x.docs); return show (x); }
static std::string key (const MEl &e) { MEl x = e; x.name = "x"; return show (ident ({ x })); }      // of a part: its own name is its parent's business
static std::string key (const Cfg &g) { return show (by_name (g.kids)); }
static std::string key (const CEl &e) { return e.sec ? show (by_name (e.kids)) : e.val.show () + tname (e.val.t); }

// ---- the comparison under test ----------------------------------------------------------------------
static bool differs (Ctx &c, disir_context *a, disir_context *b, const char *what)
{
    disir_diff_report *r = (disir_diff_report *) 1; enum disir_status s = dc_compare (a, b, &r);
    bool diff = s == DISIR_STATUS_CONFLICT;
    MC_CHECK (c, s == DISIR_STATUS_OK || diff, "status", "%s: %s", what, st (s));
    if (!diff) MC_CHECK (c, r == NULL, "report-on-equal", "%s: a report for equal objects", what);
    else
    {
        MC_CHECK (c, r && r != (void *) 1 && r->dr_entries > 0, "no-report", "%s: conflict without a difference", what);
        bool bad = false; for (int i = 0; i < r->dr_entries; i++) { bad = bad || !r->dr_diff_string[i] || !r->dr_diff_string[i][0]; free (r->dr_diff_string[i]); }
        free (r->dr_diff_string); free (r);
        MC_CHECK (c, !bad, "empty-report", "%s: empty difference", what);
    }
    MC_CHECK (c, dc_compare (a, b, NULL) == s, "report-matters", "%s: the verdict depends on the report being asked for", what);
    return diff;
}
static void pair (Ctx &c, disir_context *a, disir_context *b, bool want, const std::string &A, const std::string &B)
{
    bool l = differs (c, a, b, "left/right"), r = differs (c, b, a, "right/left");
    MC_CHECK (c, l == r, "asymmetric", "%s one way, %s the other way:\n%s\n%s", l ? "different" : "equal", r ? "different" : "equal", A.c_str (), B.c_str ());
    MC_CHECK (c, l == want, want ? "missed" : "false-difference", "reported as %s:\n%s\n%s", l ? "different" : "equal", A.c_str (), B.c_str ());
    c.validated (2); c.outcome (l ? "conflict" : "ok");
}
// child contexts, one reference each
static std::vector<disir_context *> kids_of (disir_context *p) { std::vector<disir_context *> r; disir_collection *col = NULL; if (dc_get_elements (p, &col)) return r; disir_context *e = NULL; while (dc_collection_next (col, &e) == DISIR_STATUS_OK) r.push_back (e); dc_collection_finished (&col); return r; }
struct Kids { std::vector<disir_context *> v; Kids (disir_context *p) : v (kids_of (p)) {} ~Kids () { for (auto x : v) dc_putcontext (&x); } };

struct Built { Mold m; std::string k; disir_mold *p; disir_context *x; std::vector<disir_context *> kids; };
// NULL when some step is refused (two documentation entries for a keyval, defaults sharing a version)
static disir_mold *build (const Mold &m) { disir_mold *p = NULL; Steps S; enum disir_status s = build_mold (m, &p, &S); if (p && (s || S.any_bad)) disir_mold_finished (&p); return p; }
static std::vector<Built> &pool (Ctx &c)
{
    static std::vector<Built> v;
    (void) c; if (v.empty ()) for (auto &m : edits (base_mold ())) { Built b { m, key (m), build (m), NULL, {} }; if (!b.p) continue; b.x = dc_mold_getcontext (b.p); b.kids = kids_of (b.x); v.push_back (b); }
    return v;
}
static void mold_pairs (Ctx &c)
{
    auto &v = pool (c); int i = c.choose (v.size ()), j = c.choose (v.size ()); if (j < i) c.prune ();
    const Built &a = v[i], &b = v[j]; bool diff = a.k != b.k;
    c.note ("%s\n%s\n", a.k.c_str (), b.k.c_str ()); c.state (a.k); if (diff) c.nontrivial (strf ("%d/%d", i, j));
    pair (c, a.x, b.x, diff, a.k, b.k);
    // the element at the same position of both
    for (size_t k = 0; k < a.kids.size () && k < b.kids.size (); k++)
    {
        std::string x = key (a.m.kids[k]), y = key (b.m.kids[k]);
        // an element with children sees their names; its own is its parent's business
        pair (c, a.kids[k], b.kids[k], x != y, x, y);
    }
}
// two edits against the base and against each other's single edits
static void mold_twice (Ctx &c)
{
    auto &v = pool (c); int i = c.choose (v.size ()); static std::map<int, std::vector<Mold>> memo;
    if (!memo.count (i)) { memo.clear (); memo[i] = edits (v[i].m); }
    auto &e = memo[i]; int j = c.choose (e.size ()); const Mold &m = e[j]; MoldH h; 
    h.p = build (m); if (!h.p) c.prune ();
    CtxH x; x.p = dc_mold_getcontext (h.p); std::string k = key (m); c.note ("%s\n", k.c_str ()); c.state (k); c.nontrivial (k);
    pair (c, x.p, v[i].x, k != v[i].k, k, v[i].k);
    pair (c, x.p, v[0].x, k != v[0].k, k, v[0].k);
    MoldH g; g.p = build (m); CtxH y; y.p = dc_mold_getcontext (g.p); pair (c, x.p, y.p, false, k, k);
}
// ---- configs: every arrangement of up to n entries, all pairs ------------------------------------------
static disir_mold *config_mold ()
{
    static MoldH h; auto many = [] (MEl e) { return e.with (Res::min (0)).with (Res::max (0)); };
    if (!h.p) { Mold m; m.kids = { many (MEl::kv ("a", Val::in (1))), many (MEl::kv ("b", Val::str ("x"))), many (MEl::kv ("f", Val::fl (1))), many (MEl::kv ("t", Val::bo (true))), many (MEl::kv ("e", Val::en ("x")).with (Res::en ("x")).with (Res::en ("xx")).with (Res::en ("y"))),
        many (MEl::section ("s", { many (MEl::kv ("a", Val::in (1))), many (MEl::kv ("b", Val::str ("x"))), many (MEl::section ("s", { many (MEl::kv ("a", Val::in (1))) })) })) }; m.docs = { { Ver (2, 0), "d" } }; if (build_mold (m, &h.p)) abort (); }
    return h.p;
}
struct CB { Cfg g; std::string k; disir_context *x; std::vector<disir_context *> kids; };
static CB make (Ctx &c, const Cfg &g) { disir_config *p = NULL; Steps S; if (build_config (g, config_mold (), &p, &S) || !p) c.fail ("setup", "%s", show (g).c_str ()); CB b { g, key (g), dc_config_getcontext (p), {} }; b.kids = kids_of (b.x); return b; }
static void shapes_of (int left, int depth, std::vector<std::vector<CEl>> &out, std::vector<CEl> cur)
{
    out.push_back (cur); if (!left) return;
    std::vector<CEl> menu = { CEl::kv ("a", Val::in (1)), CEl::kv ("a", Val::in (2)) }; if (depth < 2) { menu.push_back (CEl::kv ("b", Val::str ("x"))); menu.push_back (CEl::kv ("b", Val::str ("xy"))); }
    for (auto &e : menu) { auto n = cur; n.push_back (e); shapes_of (left - 1, depth, out, n); }
    if (depth < 2) { std::vector<std::vector<CEl>> in; shapes_of (left - 1, depth + 1, in, {}); for (auto &k : in) { int used = 0; std::function<void (const std::vector<CEl> &)> cnt = [&] (const std::vector<CEl> &x) { for (auto &e : x) { used++; cnt (e.kids); } }; cnt (k); auto n = cur; n.push_back (CEl::section ("s", k)); shapes_of (left - 1 - used, depth, out, n); } }
}
static void config_pairs (Ctx &c, int size)
{
    static std::vector<CB> v; if (v.empty ()) { std::vector<std::vector<CEl>> s; shapes_of (size, 0, s, {}); for (auto &k : s) { Cfg g; g.kids = k; v.push_back (make (c, g)); } }
    int i = c.choose (v.size ()), j = c.choose (v.size ()); if (j < i) c.prune ();
    const CB &a = v[i], &b = v[j]; c.note ("%s\n%s\n", a.k.c_str (), b.k.c_str ()); c.state (a.k); if (a.k != b.k) c.nontrivial (strf ("%d/%d", i, j));
    pair (c, a.x, b.x, a.k != b.k, a.k, b.k);
    for (size_t k = 0; k < a.kids.size () && k < b.kids.size (); k++) if (a.g.kids[k].sec == b.g.kids[k].sec) pair (c, a.kids[k], b.kids[k], key (a.g.kids[k]) != key (b.g.kids[k]), key (a.g.kids[k]), key (b.g.kids[k]));
}
// every pair of values of every type, in configs and as defaults and restrictions of molds
static void values (Ctx &c)
{
    static const std::vector<std::vector<Val>> V = {
        { Val::in (0), Val::in (1), Val::in (-1), Val::in (INT64_MAX), Val::in (INT64_MIN), Val::in (1ll << 32), Val::in ((1ll << 53) + 1), Val::in (1ll << 53), Val::in (-(1ll << 32)) },
        { Val::fl (0), Val::fl (1), Val::fl (-1), Val::fl (0.1), Val::fl (0.1 + 1e-17 * 3), Val::fl (0.30000000000000004), Val::fl (0.3), Val::fl (1e300), Val::fl (-1e300), Val::fl (5e-324), Val::fl (2147483648.5), Val::fl (1e-7), Val::fl (2e-7) },
        { Val::str (""), Val::str ("a"), Val::str ("b"), Val::str ("aa"), Val::str ("A"), Val::str (std::string (300, 'x')), Val::str (std::string (299, 'x') + "y"), Val::str ("%s%n"), Val::str ("\xc3\xa6") },
        { Val::bo (true), Val::bo (false) },
        { Val::en ("x"), Val::en ("xx"), Val::en ("y") } };
    static const char *N[] = { "a", "f", "b", "t", "e" };
    int t = c.choose (5), i = c.choose (V[t].size ()), j = c.choose (V[t].size ()), where = c.choose (3); const Val &x = V[t][i], &y = V[t][j];
    c.note ("%s and %s\n", x.show ().c_str (), y.show ().c_str ()); if (i != j) c.nontrivial (strf ("%d/%d/%d/%d", t, i, j, where));
    if (where < 2)
    {
        Cfg g, h; g.kids = { CEl::kv (N[t], x) }; h.kids = { CEl::kv (N[t], y) };
        if (where) { g.kids.insert (g.kids.begin (), CEl::kv (N[t], V[t][0])); h.kids.insert (h.kids.begin (), CEl::kv (N[t], V[t][0])); }
        CfgH A, B; build_config (g, config_mold (), &A.p); build_config (h, config_mold (), &B.p); if (!A.p || !B.p) c.fail ("setup", "config");
        CtxH a, b; a.p = dc_config_getcontext (A.p); b.p = dc_config_getcontext (B.p); pair (c, a.p, b.p, x != y, x.show (), y.show ());
    }
    else
    {
        auto mk = [&] (const Val &v) { Mold m; MEl k = MEl::kv ("k", v); if (t == 4) k.with (Res::en ("x")).with (Res::en ("xx")).with (Res::en ("y")); m.kids = { k }; return m; };
        MoldH A, B; build_mold (mk (x), &A.p); build_mold (mk (y), &B.p); CtxH a, b; a.p = dc_mold_getcontext (A.p); b.p = dc_mold_getcontext (B.p); pair (c, a.p, b.p, x != y, x.show (), y.show ());
    }
}
int main (int argc, char **argv)
{
    Info i = { "C16", "exploration",
        "an ordered pair of objects that differ: all pairs out of a base mold (documentation, defaults, every restriction kind with versions, nested sections, deprecation) and every single edit of it, each double edit against its single edit and the base; "
        "all pairs of configs with up to 3 (thorough 4) entries over two names, two values and nested sections; all pairs of boundary values; with the corresponding elements of both compared as parts",
        { "two parts handed in directly are compared by their content: their own name belongs to their parent", "negative zero and not-a-number are left out" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "molds", 2, mold_pairs },
        { "twice", 2, mold_twice },
        { "configs", 2, [] (Ctx &c) { config_pairs (c, c.thorough () ? 4 : 3); } },
        { "values", 3, values } });
}
