// C29: a mold finalizes as valid exactly when it is coherent
// technique: exhaustive exploration of small molds with every combination of flaws, built, repaired and finalized through the real API, compared with a reference definition of coherence
#include "mm.h"
using namespace mc; using namespace mm;

enum { OK_RES, R_MIN, R_MIN2, R_MAX, R_UNTYPED, R_NUM, R_ENUM };      // restrictions: R_MIN2 is introduced at 2.0
struct P { bool sec; std::string name; int type; std::vector<int> defs; std::vector<int> res; std::vector<P> kids; disir_context *ref; bool there; P () : sec (false), type (INT), ref (NULL), there (false) {} };
static bool twice (const std::vector<int> &v, bool only_counts = false) { for (size_t i = 0; i < v.size (); i++) for (size_t j = 0; j < i; j++) if (v[i] == v[j] && (!only_counts || v[i] == R_MIN || v[i] == R_MIN2 || v[i] == R_MAX)) return true; return false; }
static bool own (const P &p)
{
    if (p.name.empty () || !name_ok (p.name)) return false;
    if (!p.sec && (p.type == 0 || p.defs.empty () || twice (p.defs))) return false;
    for (int r : p.res) if (r == R_UNTYPED) return false;
    return !twice (p.res, true);
}
static bool coherent (const P &p) { if (!own (p)) return false; for (auto &k : p.kids) if (k.there && !coherent (k)) return false; return true; }
static std::string show (const P &p)
{
    std::string s = p.sec ? "section" : "keyval"; s += p.name.empty () ? " without name" : " " + p.name;
    if (!p.sec) { s += strf (":%s", tname (p.type)); for (int d : p.defs) s += strf (" default@%d.0", d); }
    static const char *rn[] = { "", "min@1.0", "min@2.0", "max@1.0", "untyped", "number", "text" };
    for (int r : p.res) s += strf (" [%s]", rn[r]);
    if (p.sec) { s += " {"; for (auto &k : p.kids) s += " " + show (k) + ";"; s += " }"; }
    return s;
}
static Val dval (int t, int n) { switch (t) { case STR: return Val::str (strf ("v%d", n)); case FLT: return Val::fl (n + .5); case BOOL: return Val::bo (n & 1); case ENUM: return Val::en ("a"); default: return Val::in (n); } }
struct Build { Ctx &c; bool keep; };
static disir_context *begin_restriction (Ctx &c, disir_context *k, int r)
{
    disir_context *x = NULL; enum disir_status s = dc_begin (k, DISIR_CONTEXT_RESTRICTION, &x); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "begin restriction: %s", st (s));
    static const enum disir_restriction_type T[] = { DISIR_RESTRICTION_UNKNOWN, DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MAX, DISIR_RESTRICTION_UNKNOWN, DISIR_RESTRICTION_EXC_VALUE_NUMERIC, DISIR_RESTRICTION_EXC_VALUE_ENUM };
    if (r != R_UNTYPED) { s = dc_set_restriction_type (x, T[r]); MC_CHECK (c, s == DISIR_STATUS_OK, "type", "restriction type %d: %s", r, st (s)); }
    if (r == R_ENUM) dc_restriction_set_string (x, "a"); else if (r != R_UNTYPED) dc_restriction_set_numeric (x, r == R_MAX ? 3 : 1);
    disir_version v = { r == R_MIN2 ? 2u : 1u, 0 }; dc_add_introduced (x, &v);
    return x;
}
// begin, fill and finalize p below parent; checks every status on the way; true if it has been accepted (valid or not)
static void build (Ctx &c, disir_context *parent, P &p, bool sealed, bool keep)
{
    disir_context *x = NULL; enum disir_status s;
    s = dc_begin (parent, p.sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x); MC_CHECK (c, s == DISIR_STATUS_OK && x, "begin", "begin: %s", st (s));
    if (!p.name.empty ()) { s = dc_set_name (x, p.name.c_str (), p.name.size ()); MC_CHECK (c, s == DISIR_STATUS_OK, "name", "set name %s: %s", p.name.c_str (), st (s)); }
    if (!p.sec && p.type) { s = dc_set_value_type (x, (enum disir_value_type) p.type); MC_CHECK (c, s == DISIR_STATUS_OK, "type", "set type %s: %s", tname (p.type), st (s)); }
    std::vector<int> seen;
    for (int d : p.defs)
    {
        disir_context *y = NULL; s = dc_begin (x, DISIR_CONTEXT_DEFAULT, &y);
        if (!p.type) { MC_CHECK (c, s != DISIR_STATUS_OK, "default-untyped", "a default is begun on a keyval without a type"); if (y) dc_putcontext (&y); continue; }
        MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "begin default: %s", st (s));
        disir_version v = { (uint32_t) d, 0 }; dc_add_introduced (y, &v); set_value (y, dval (p.type, d));
        s = dc_finalize (&y); bool dup = std::find (seen.begin (), seen.end (), d) != seen.end (); seen.push_back (d);
        MC_CHECK (c, dup ? s == DISIR_STATUS_INVALID_CONTEXT && y : s == DISIR_STATUS_OK && !y, "default", "%s: finalizing %s default at %d.0: %s", show (p).c_str (), dup ? "another" : "the", d, st (s));
        if (y) dc_putcontext (&y);
    }
    if (!p.type) p.defs.clear ();
    std::vector<int> had;
    for (int r : p.res)
    {
        disir_context *y = begin_restriction (c, x, r); s = dc_finalize (&y);
        bool bad = r == R_UNTYPED || ((r == R_MIN || r == R_MIN2 || r == R_MAX) && std::find (had.begin (), had.end (), r) != had.end ()); had.push_back (r);
        MC_CHECK (c, bad ? s == DISIR_STATUS_INVALID_CONTEXT && y : s == DISIR_STATUS_OK && !y, "restriction", "%s: finalizing restriction %d: %s", show (p).c_str (), r, st (s));
        if (y) dc_putcontext (&y);
    }
    for (auto &k : p.kids) build (c, x, k, false, keep);
    bool good = coherent (p), named = !p.name.empty ();
    disir_context *was = x; if (keep) { s = dc_finalize_keep_reference (x); } else s = dc_finalize (&x);
    if (!named || (sealed && !good))
    {
        MC_CHECK (c, s != DISIR_STATUS_OK && s != DISIR_STATUS_INVALID_CONTEXT && x, "refuse", "%s: finalizing it on a %s parent: %s", show (p).c_str (), sealed ? "finished" : "constructing", st (s));
        for (auto &k : p.kids) if (k.ref) dc_putcontext (&k.ref);
        p.there = false; s = dc_destroy (&x); MC_CHECK (c, s == DISIR_STATUS_OK, "destroy", "destroying the refused: %s", st (s)); return;
    }
    MC_CHECK (c, s == (good ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "finalize", "%s: finalizing it: %s", show (p).c_str (), st (s));
    p.there = true;
    if (keep) p.ref = was; else { MC_CHECK (c, (x != NULL) == (s != DISIR_STATUS_OK), "reference", "%s: finalized to %s, the reference is %s", show (p).c_str (), st (s), x ? "kept" : "gone"); if (x) dc_putcontext (&x); }
}
static void bad_names (const std::vector<P> &k, std::string &o) { for (auto &p : k) if (p.there) { if (!own (p)) o += p.name + " "; bad_names (p.kids, o); } }
static void all_names (const std::vector<P> &k, std::string &o) { for (auto &p : k) if (p.there) { o += p.name + " "; if (p.sec) { o += "{ "; all_names (p.kids, o); o += "} "; } } }
static void listing (disir_context *x, std::string &o)
{
    disir_collection *col = NULL; if (dc_get_elements (x, &col)) { o += "? "; return; }
    each (col, [&] (disir_context *e) { const char *n = NULL; dc_get_name (e, &n, NULL); o += std::string (n ? n : "-") + " "; if (dc_context_type (e) == DISIR_CONTEXT_SECTION) { o += "{ "; listing (e, o); o += "} "; } return true; });
}
static std::string invalid_list (disir_mold *m, enum disir_status &s) { disir_collection *col = NULL; s = disir_mold_valid (m, &col); std::string o; if (col) each (col, [&] (disir_context *e) { const char *n = NULL; o += (dc_get_name (e, &n, NULL) || !n ? dc_context_type_string (e) : n) + std::string (" "); return true; }); return o; }
static void verdict (Ctx &c, disir_mold *m, enum disir_status fin, const std::vector<P> &kids, const char *when)
{
    std::string bad; bad_names (kids, bad); enum disir_status s; std::string got = invalid_list (m, s), tree, want;
    MC_CHECK (c, fin == (bad.empty () ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "mold", "%s: %s, with invalid: %s", when, st (fin), bad.c_str ());
    MC_CHECK (c, s == fin, "valid", "%s: finalized to %s, its validity is %s", when, st (fin), st (s));
    MC_CHECK (c, disir_mold_valid (m, NULL) == fin, "valid", "%s: finalized to %s, its validity without a list is %s", when, st (fin), st (disir_mold_valid (m, NULL)));
    MC_CHECK (c, got == bad, "list", "%s: lists as invalid '%s', expected '%s'", when, got.c_str (), bad.c_str ());
    all_names (kids, want); disir_context *r = dc_mold_getcontext (m); listing (r, tree); dc_putcontext (&r);
    MC_CHECK (c, tree == want, "content", "%s: contains '%s', expected '%s'", when, tree.c_str (), want.c_str ());
}
static enum disir_status finish (Ctx &c, disir_context *&root, disir_mold *&m) { enum disir_status s = dc_mold_finalize (&root, &m); MC_CHECK (c, (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT) && m && !root, "mold", "finalizing the mold: %s", st (s)); return s; }
static const std::vector<std::vector<int>> DEFS = { {}, { 1 }, { 2 }, { 1, 2 }, { 2, 1 }, { 1, 1 }, { 2, 2 }, { 1, 2, 1 }, { 2, 1, 2 }, { 1, 2, 3 }, { 3, 1, 2, 3 } };
static const std::vector<std::vector<int>> RES = { {}, { R_MIN }, { R_MIN, R_MIN2 }, { R_MIN, R_MAX }, { R_UNTYPED }, { R_MIN, R_MIN }, { R_MAX, R_MAX }, { R_MAX, R_UNTYPED, R_MIN }, { R_MIN2, R_MAX, R_MIN2 } };
static const char *NAMES[] = { "k", "", "Bad", "k.b", "k b", "9_z" };
// one entry with every combination of its parts, on every kind of parent
static void pieces (Ctx &c)
{
    int where = c.choose (6); P p; p.sec = c.choose (2); p.name = NAMES[c.choose (6)];
    if (!p.sec) { p.type = c.choose (6); p.defs = DEFS[c.choose (DEFS.size ())]; }
    int r = c.choose (RES.size () + 1); if (r == (int) RES.size ()) { if (p.sec || (p.type != INT && p.type != FLT && p.type != ENUM)) c.prune (); p.res = { p.type == ENUM ? R_ENUM : R_NUM }; } else p.res = RES[r];
    if (p.sec) { int k = c.choose (4); P q; q.name = k == 3 ? "" : "q"; if (k != 1) q.defs = { 1 }; if (k) p.kids = { q }; }
    static const char *W[] = { "on the mold", "in a section", "in a section of a section", "in a finished section", "on a finished mold", "in a section of a finished mold" };
    c.note ("%s, %s\n", show (p).c_str (), W[where]); c.risk ("crash");
    disir_context *root = NULL, *s1 = NULL, *s2 = NULL; disir_mold *m = NULL; size_t h0 = heap ();
    {
    dc_mold_begin (&root); std::vector<P> kids; enum disir_status s;
    P a; a.sec = true; a.name = "sa"; a.there = true; P b = a; b.name = "sb";
    auto begin = [&] (disir_context *par, const P &q) { disir_context *x = NULL; dc_begin (par, DISIR_CONTEXT_SECTION, &x); dc_set_name (x, q.name.c_str (), q.name.size ()); return x; };
    auto check = [&] (enum disir_status f, bool good, disir_context *&x) { MC_CHECK (c, f == (good ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "parent", "%s: finalizing its section: %s", show (p).c_str (), st (f)); if (x) dc_putcontext (&x); };
    enum disir_status fin = DISIR_STATUS_OK;
    switch (where)
    {
    case 0: build (c, root, p, false, false); kids = { p }; fin = finish (c, root, m); break;
    case 1: s1 = begin (root, a); build (c, s1, p, false, false); a.kids = { p }; s = dc_finalize (&s1); check (s, coherent (a), s1); kids = { a }; fin = finish (c, root, m); break;
    case 2: s1 = begin (root, a); s2 = begin (s1, b); build (c, s2, p, false, false); b.kids = { p }; s = dc_finalize (&s2); check (s, coherent (b), s2); a.kids = { b }; s = dc_finalize (&s1); check (s, coherent (a), s1); kids = { a }; fin = finish (c, root, m); break;
    case 3: s1 = begin (root, a); s = dc_finalize_keep_reference (s1); build (c, s1, p, true, false); a.kids = { p }; dc_putcontext (&s1); kids = { a }; fin = finish (c, root, m); break;
    case 4: fin = finish (c, root, m); { disir_context *r0 = dc_mold_getcontext (m); build (c, r0, p, true, false); dc_putcontext (&r0); } kids = { p }; break;
    default: s1 = begin (root, a); s = dc_finalize_keep_reference (s1); fin = finish (c, root, m); build (c, s1, p, true, false); dc_putcontext (&s1); a.kids = { p }; kids = { a };
    }
    verdict (c, m, fin, kids, W[where]);
    disir_mold_finished (&m);
    }
    size_t h1 = heap (); MC_CHECK (c, h0 == h1, "leak", "%ld bytes are never given back", (long) (h1 - h0));
    c.state (strf ("%d %s", where, show (p).c_str ())); c.nontrivial (strf ("%d %s", where, show (p).c_str ())); c.outcome (coherent (p) ? "coherent" : "flawed"); c.validated ();
}
static const char *FN[] = { "fine", "bad name", "no default", "double default", "untyped", "untyped restriction", "two minimums", "no name" };
static P node (Ctx &c, bool sec, int n)
{
    P p; p.sec = sec; p.name = strf ("%c%d", sec ? 's' : 'k', n); if (!sec) p.defs = { 1 };
    int f = sec ? (const int[]) { 0, 1, 5, 6, 7 }[c.choose (5)] : c.choose (8);
    switch (f) { case 1: p.name = strf ("N%d", n); break; case 2: p.defs.clear (); break; case 3: p.defs = { 1, 2, 1 }; break; case 4: p.type = 0; p.defs.clear (); break; case 5: p.res = { R_MAX, R_UNTYPED }; break; case 6: p.res = { R_MIN, R_MIN }; break; case 7: p.name = ""; break; default: break; }
    (void) FN; return p;
}
static void grow (Ctx &c, std::vector<P> &k, int &left, int depth)
{
    while (left > 0)
    {
        int what = c.choose (depth ? 3 : 2); if (!what) return;
        left--; P p = node (c, what == 2, left); if (what == 2) grow (c, p.kids, left, depth - 1); k.push_back (p);
    }
}
static void trees_n (Ctx &c, int n, bool repair)
{
    std::vector<P> kids; int left = n; grow (c, kids, left, 2);
    // repairs of the flawed nodes, in document order
    std::vector<int> fix; std::function<void (std::vector<P> &)> count = [&] (std::vector<P> &v) { for (auto &p : v) { fix.push_back (repair ? c.choose (3) : 0); count (p.kids); } }; count (kids);
    if (repair) { bool any = false; for (int f : fix) any |= f; if (!any) c.prune (); }
    std::string all; for (auto &p : kids) all += show (p) + "; "; for (int f : fix) all += strf ("%d", f); c.note ("%s\n", all.c_str ()); c.risk ("crash");
    size_t h0 = heap (); bool bad;
    {
    std::vector<P> mine = kids; std::vector<P> &kids = mine;
    disir_context *root = NULL; disir_mold *m = NULL; dc_mold_begin (&root);
    for (auto &p : kids) build (c, root, p, false, repair);
    if (repair)
    {
        // 1: what is wrong is put right, 2: the node is destroyed
        size_t i = 0; std::function<void (std::vector<P> &, bool)> go = [&] (std::vector<P> &v, bool dead) { for (auto &p : v) {
            int f = fix[i++]; bool gone = dead || !p.there;
            if (gone) f = 0;
            if (f == 1)
            {
                if (!p.sec && p.type && p.defs.empty ()) { disir_version y = { 1, 0 }; enum disir_status s = dc_add_default_integer (p.ref, 1, &y); if (name_ok (p.name)) { MC_CHECK (c, s == DISIR_STATUS_OK, "repair", "%s: adding the missing default: %s", show (p).c_str (), st (s)); p.defs = { 1 }; } else if (!s) p.defs = { 1 }; }
                else if (!p.sec && twice (p.defs))
                {
                    disir_collection *col = NULL; dc_get_default_contexts (p.ref, &col); int k = 0; disir_context *d = NULL;
                    each (col, [&] (disir_context *e) { disir_version y; dc_get_introduced (e, &y); if (y.sv_major == 1 && k++ == 1 && !d) { d = e; } return true; });
                    if (d) { disir_collection *again = NULL; dc_get_default_contexts (p.ref, &again); disir_context *e = NULL; while (dc_collection_next (again, &e) == DISIR_STATUS_OK) { if (e == d) { dc_collection_finished (&again); enum disir_status s = dc_destroy (&e); MC_CHECK (c, s == DISIR_STATUS_OK, "repair", "destroying the second default: %s", st (s)); break; } dc_putcontext (&e); } if (again) dc_collection_finished (&again); p.defs = { 1, 2 }; }
                }
                else if (p.res.size () == 2)
                {
                    disir_collection *col = NULL; dc_restriction_collection (p.ref, &col); disir_context *e = NULL, *last = NULL; while (col && dc_collection_next (col, &e) == DISIR_STATUS_OK) { if (last) dc_putcontext (&last); last = e; } if (col) dc_collection_finished (&col);
                    if (last) { enum disir_status s = dc_destroy (&last); MC_CHECK (c, s == DISIR_STATUS_OK, "repair", "destroying the second restriction: %s", st (s)); p.res.pop_back (); }
                }
            }
            if (f == 2) { disir_context *x = p.ref; enum disir_status s = dc_destroy (&x); MC_CHECK (c, s == DISIR_STATUS_OK && !x, "repair", "destroying %s: %s", show (p).c_str (), st (s)); p.ref = NULL; p.there = false; gone = true; }
            go (p.kids, gone); } };
        go (kids, false);
        std::function<void (std::vector<P> &)> drop_refs = [&] (std::vector<P> &v) { for (auto &p : v) { if (p.ref) dc_putcontext (&p.ref); drop_refs (p.kids); } }; drop_refs (kids);
    }
    enum disir_status fin = finish (c, root, m); verdict (c, m, fin, kids, "the mold"); bad = fin != DISIR_STATUS_OK;
    disir_mold_finished (&m);
    }
    size_t h1 = heap (); MC_CHECK (c, h0 == h1, "leak", "%ld bytes are never given back", (long) (h1 - h0));
    c.state (all); c.nontrivial (all); c.outcome (bad ? "invalid" : "valid"); c.validated ();
}
static void trees (Ctx &c) { trees_n (c, c.thorough () ? 5 : 4, false); }
static void repairs (Ctx &c) { trees_n (c, c.thorough () ? 4 : 3, true); }
int main (int argc, char **argv)
{
    Info i = { "C29", "exploration", "one entry with every combination of name, type, defaults, restrictions and child on six kinds of parent (under construction, finished, nested); every mold of up to 4 (thorough 5) nodes and depth 3 with each node fine or flawed in one of seven ways; every such mold of up to 3 (thorough 4) nodes with every choice of repairing or destroying nodes before it is finalized; the outcome of each step, of the mold, the list of invalid contexts and the content are compared with a reference definition of coherence", { "at most one kind of flaw per node in trees (combined in pieces)" }, NULL, NULL };
    return mc::main (argc, argv, i, { { "pieces", 2, pieces }, { "trees", 2, trees }, { "repairs", 2, repairs } });
}
