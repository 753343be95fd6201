// C02: a finalized config stays valid; refused changes leave no trace
// technique: exhaustive exploration of all mutation sequences up to a bounded depth on the real library, each step compared with a reference model of the tree
#include "mm.h"
using namespace mc; using namespace mm;

struct Op { int kind; std::vector<int> path; std::string name; Val val; CEl el; std::string q; std::string text; };

static Mold the_mold (int which)
{
    Mold m;
    if (which == 0)
    {
        m.kids.push_back (MEl::kv ("a", Val::in (2)).with (Res::range (1, 3)).with (Res::min (0)).with (Res::max (2)));
        m.kids.push_back (MEl::section ("s", { MEl::kv ("c", Val::in (1)).with (Res::num (1)).with (Res::num (5)), MEl::kv ("d", Val::str ("d")).with (Res::min (0)).with (Res::max (0)) }).with (Res::min (1)).with (Res::max (2)));
    }
    else if (which == 1)
    {
        m.kids.push_back (MEl::kv ("e", Val::en ("x")).with (Res::en ("x")).with (Res::en ("y", Ver (2, 0))).with (Res::en ("z", Ver (1, 0)).until (Ver (2, 0))));
        m.kids.push_back (MEl::section ("s", { MEl::section ("i", { MEl::kv ("f", Val::fl (0.5)).with (Res::range (0, 1)) }).with (Res::min (0)).with (Res::max (2)) }));
    }
    else
    {
        m.kids.push_back (MEl::kv ("b", Val::bo (true)));
        m.kids.push_back (MEl::kv ("n", Val::in (1), Ver (2, 0)));
        m.kids.push_back (MEl::section ("s", { MEl::kv ("k", Val::in (1)) }).with (Res::min (0)).with (Res::max (0)).until (Ver (2, 0)));
        m.kids.push_back (MEl::kv ("g", Val::str ("")).with (Res::min (0)).with (Res::max (3)).with (Res::max (1, Ver (2, 0))));
    }
    return m;
}
static std::vector<Val> menu (const MEl &e)
{
    switch (e.t)
    {
    case INT: return { Val::in (3), Val::in (5), Val::in (-4), Val::str ("w") };
    case ENUM: return { Val::en ("y"), Val::en ("z"), Val::en ("q"), Val::in (1) };
    case FLT: return { Val::fl (0.25), Val::fl (1.5), Val::in (1) };
    case STR: return { Val::str ("longer text"), Val::str (""), Val::en ("d") };
    default: return { Val::bo (false), Val::fl (1.0) };
    }
}
static CEl *at (Cfg &g, const std::vector<int> &p) { std::vector<CEl> *k = &g.kids; CEl *r = nullptr; for (int i : p) { r = &(*k)[i]; k = &r->kids; } return r; }

static void ops_in (const Mold &m, const std::vector<MEl> &me, const std::vector<CEl> &kids, Ver v, std::vector<int> path, const std::string &prefix, std::vector<Op> &out)
{
    std::vector<std::string> seen;
    for (size_t i = 0; i < kids.size (); i++)
    {
        auto p = path; p.push_back (i); const CEl &e = kids[i]; const MEl *x = find (me, e.name);
        int idx = std::count (seen.begin (), seen.end (), e.name); seen.push_back (e.name);
        std::string q = prefix + e.name + (idx ? strf ("@%d", idx) : "");
        if (!e.sec)
        {
            for (auto &val : menu (*x))
            {
                out.push_back ({ 0, p, "", val, CEl (), "", strf ("set %s := %s (%s)", q.c_str (), val.show ().c_str (), tname (val.t)) });
                out.push_back ({ 1, p, "", val, CEl (), q, strf ("set by path %s := %s (%s)", q.c_str (), val.show ().c_str (), tname (val.t)) });
            }
        }
        else ops_in (m, x->kids, e.kids, v, p, q + ".", out);
        out.push_back ({ 2, p, "", Val (), CEl (), "", "destroy " + q });
    }
    for (auto &x : me)
    {
        int n = count (kids, x.name); std::string q = prefix + x.name + (n ? strf ("@%d", n) : "");
        if (!x.sec)
        {
            auto vals = menu (x);
            for (size_t i = 0; i < vals.size (); i++)
            {
                out.push_back ({ 3, path, x.name, Val (), CEl::kv (x.name, vals[i]), "", strf ("append %s = %s (%s)", q.c_str (), vals[i].show ().c_str (), tname (vals[i].t)) });
                if (i < 2) out.push_back ({ 4, path, x.name, vals[i], CEl::kv (x.name, vals[i]), q, strf ("append by path %s = %s", q.c_str (), vals[i].show ().c_str ()) });
            }
        }
        else
        {
            CEl full = CEl::section (x.name, generate (x.kids, v)), empty = CEl::section (x.name), bad = full, dup = full;
            out.push_back ({ 3, path, x.name, Val (), full, "", "append " + q + " " + show (full.kids) });
            if (!full.kids.empty ()) out.push_back ({ 3, path, x.name, Val (), empty, "", "append empty " + q });
            const MEl &first = x.kids[0];
            if (!first.sec)
            {
                auto vals = menu (first);
                bad.kids.insert (bad.kids.begin (), CEl::kv (first.name, vals[vals.size () - 2]));
                if (!full.kids.empty ()) bad.kids.erase (bad.kids.begin () + 1);
                dup.kids.push_back (CEl::kv (first.name, first.defs[0].val)); dup.kids.push_back (CEl::kv (first.name, first.defs[0].val));
            }
            else { CEl in = CEl::section (first.name); in.kids.push_back (CEl::kv (first.kids[0].name, menu (first.kids[0])[1])); bad.kids.push_back (in); dup.kids.push_back (CEl::section (first.name, generate (first.kids, v))); }
            out.push_back ({ 3, path, x.name, Val (), bad, "", "append " + q + " " + show (bad.kids) });
            out.push_back ({ 3, path, x.name, Val (), dup, "", "append " + q + " " + show (dup.kids) });
        }
    }
}
// the tree with minimum counts ignored: destroying below the minimum is the caller's business
static bool fits (const std::vector<MEl> &m, const std::vector<CEl> &k, Ver v, bool mins)
{
    for (auto &e : m) { int min, max, n = count (k, e.name); limits (e, v, min, max); if ((mins && n < min) || (max == -1 && n) || (max > 0 && n > max)) return false; }
    for (auto &e : k) { const MEl *x = find (m, e.name); if (!x || x->sec != e.sec) return false; if (e.sec ? !fits (x->kids, e.kids, v, mins) : !value_allowed (*x, e.val, v)) return false; }
    return true;
}
static const MEl *mold_at (const Mold &m, const Cfg &g, const std::vector<int> &p)
{
    const std::vector<MEl> *me = &m.kids; const std::vector<CEl> *k = &g.kids; const MEl *x = nullptr;
    for (int i : p) { x = find (*me, (*k)[i].name); me = &x->kids; k = &(*k)[i].kids; }
    return x;
}
static disir_context *walk (disir_context *root, const std::vector<int> &p)
{
    // returns a reference
    disir_context *cur = root; bool own = false;
    for (int i : p)
    {
        disir_collection *col = NULL; dc_get_elements (cur, &col);
        disir_context *hit = NULL, *e = NULL; int n = 0;
        while (dc_collection_next (col, &e) == DISIR_STATUS_OK) { if (n++ == i) hit = e; else dc_putcontext (&e); }
        dc_collection_finished (&col);
        if (own) dc_putcontext (&cur);
        if (!hit) return NULL;
        cur = hit; own = true;
    }
    return cur;
}
static enum disir_status path_set (disir_config *cf, const Val &v, const std::string &q)
{
    switch (v.t)
    {
    case STR: return disir_config_set_keyval_string (cf, v.s.c_str (), "%s", q.c_str ());
    case ENUM: return disir_config_set_keyval_enum (cf, v.s.c_str (), "%s", q.c_str ());
    case INT: return disir_config_set_keyval_integer (cf, v.i, "%s", q.c_str ());
    case FLT: return disir_config_set_keyval_float (cf, v.d, "%s", q.c_str ());
    default: return disir_config_set_keyval_boolean (cf, v.b, "%s", q.c_str ());
    }
}
static enum disir_status apply (disir_config *cf, disir_context *root, const Op &o)
{
    enum disir_status s = DISIR_STATUS_OK;
    if (o.kind == 1 || o.kind == 4) return path_set (cf, o.val, o.q);
    disir_context *x = o.path.empty () ? root : walk (root, o.path);
    if (!x) return DISIR_STATUS_INTERNAL_ERROR;
    if (o.kind == 0) s = set_value (x, o.val);
    else if (o.kind == 2) { s = dc_destroy (&x); return s; }
    else
    {
        disir_context *n = NULL;
        s = dc_begin (x, o.el.sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &n);
        if (s == DISIR_STATUS_OK)
        {
            s = dc_set_name (n, o.el.name.c_str (), o.el.name.size ());
            if (s == DISIR_STATUS_OK && !o.el.sec) set_value (n, o.el.val);
            if (s == DISIR_STATUS_OK && o.el.sec) { Steps S; build_config_kids (S, n, o.el.kids); }
            if (s == DISIR_STATUS_OK) s = dc_finalize (&n);
            if (s != DISIR_STATUS_OK && n) dc_destroy (&n);
        }
    }
    if (x && x != root) dc_putcontext (&x);
    return s;
}
static void explore (Ctx &c, int which, int depth)
{
    Mold m = the_mold (which); Cfg g;
    g.v = mold_version (m); if (which && c.choose (2)) g.v = Ver (1, 0);
    MoldH mh; build_mold (m, &mh.p); CfgH ch; disir_version v = g.v.v ();
    enum disir_status s = disir_generate_config_from_mold (mh.p, &v, &ch.p);
    MC_CHECK (c, s == DISIR_STATUS_OK, "generate", "generate: %s", st (s));
    g.kids = generate (m.kids, g.v);
    c.note ("%s", show (m).c_str ()); c.note ("start: %s", show (g).c_str ());
    struct R { disir_context *p; ~R () { if (p) dc_putcontext (&p); } } root { dc_config_getcontext (ch.p) };
    int steps = 0; bool refused = false, changed = false;
    for (int i = 0; i < depth; i++)
    {
        std::vector<Op> ops; ops_in (m, m.kids, g.kids, g.v, {}, "", ops);
        const Op &o = ops[c.choose (ops.size ())];
        std::string before = show (g);
        c.state (strf ("%d", which) + before); c.transition (before, o.text);
        Cfg n = g; bool ok = true;
        if (o.kind == 0 || o.kind == 1) { const MEl *x = mold_at (m, g, o.path); ok = value_allowed (*x, o.val, g.v); at (n, o.path)->val = o.val; }
        else if (o.kind == 2) { auto p = o.path; int last = p.back (); p.pop_back (); auto &k = p.empty () ? n.kids : at (n, p)->kids; k.erase (k.begin () + last); }
        else
        {
            auto &k = o.path.empty () ? n.kids : at (n, o.path)->kids;
            const std::vector<MEl> &me = o.path.empty () ? m.kids : mold_at (m, g, o.path)->kids;
            k.push_back (o.el); const MEl *x = find (me, o.el.name); int min, max; limits (*x, g.v, min, max);
            int cnt = count (k, o.el.name);
            ok = !(max == -1 || (max > 0 && cnt > max)) && (o.el.sec ? valid (x->kids, o.el.kids, g.v) : value_allowed (*x, o.el.val, g.v));
        }
        c.note ("%d: %s%s", i + 1, o.text.c_str (), ok ? "" : "   (must be refused)");
        s = apply (ch.p, root.p, o);
        steps++;
        if (ok) { MC_CHECK (c, s == DISIR_STATUS_OK, "refused", "%s was refused with %s although the result satisfies the mold", o.text.c_str (), st (s)); g = n; changed = true; }
        else { MC_CHECK (c, s != DISIR_STATUS_OK, "accepted", "%s was accepted although the mold forbids it", o.text.c_str ()); refused = true; }
        c.outcome (strf ("%d/%d/%d", o.kind, ok, s));
        Cfg d; std::string err;
        MC_CHECK (c, dump_config (ch.p, d, err), "dump", "%s", err.c_str ());
        MC_CHECK (c, d == g, ok ? "wrong-result" : "trace-left", "after %s (%s): config is %s, expected %s", o.text.c_str (), st (s), show (d).c_str (), show (g).c_str ());
        if (fits (m.kids, g.kids, g.v, true))
        {
            s = disir_config_valid (ch.p, NULL);
            MC_CHECK (c, s == DISIR_STATUS_OK, "not-valid", "disir_config_valid: %s although %s satisfies the mold", st (s), show (g).c_str ());
        }
        c.validated ();
    }
    if (changed || refused) c.nontrivial (show (g) + strf ("%d%d", changed, refused));
}
int main (int argc, char **argv)
{
    Info i = { "C02", "exploration",
        "three molds (ranged/optional keyvals and repeated sections; enum with version dependent values and nested sections; entries introduced and deprecated), started from the generated config at 1.0 and at the "
        "mold's version; every sequence of up to 3 (thorough 4) operations out of: set any keyval to any menu value by handle and by path, append any keyval with any value by handle and path, append any section (complete, empty, "
        "with a bad value, with a repeated keyval), destroy any element",
        { "dropping below the minimum by destroying elements is the caller's doing and not counted against the library" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "ranged", 2, [] (Ctx &c) { explore (c, 0, c.thorough () ? 4 : 3); } },
        { "enum", 2, [] (Ctx &c) { explore (c, 1, c.thorough () ? 4 : 3); } },
        { "versioned", 2, [] (Ctx &c) { explore (c, 2, c.thorough () ? 4 : 3); } } });
}
