// C13: path queries address exactly the named entry
// technique: exhaustive exploration of all bounded paths (well-formed and malformed) and sequences of path based sets through the real API, compared with a reference model
#include "mm.h"
#include <memory>
using namespace mc; using namespace mm;

static const Ver V10 (1, 0), V20 (2, 0);
static Mold mold ()
{
    Mold m;
    m.kids.push_back (MEl::kv ("k", Val::in (1)).with (Res::range (-5, 50)));
    m.kids.push_back (MEl::kv ("r", Val::in (2)).with (Res::min (0)).with (Res::max (3)));
    m.kids.push_back (MEl::kv ("o", Val::str ("o")).with (Res::min (0)));
    MEl t = MEl::section ("t", { MEl::kv ("z", Val::in (5)), MEl::kv ("w", Val::en ("a")).with (Res::en ("a")).with (Res::en ("b")).with (Res::min (0)).with (Res::max (0)) }).with (Res::min (0)).with (Res::max (2));
    m.kids.push_back (MEl::section ("s", { MEl::kv ("x", Val::in (3)), MEl::kv ("y", Val::bo (true)).with (Res::min (0)).with (Res::max (2)), t }));
    m.kids.push_back (MEl::section ("u", { MEl::kv ("x", Val::fl (0.5)), t, MEl::section ("v", { MEl::kv ("x", Val::in (0)).with (Res::min (0)) }) }).with (Res::min (0)).with (Res::max (2)));
    m.kids.push_back (MEl::section ("n", { MEl::kv ("x", Val::in (7)) }).with (Res::min (0)).from (V20));
    return m;
}
static std::vector<Cfg> shapes (const Mold &m)
{
    std::vector<Cfg> r; Cfg g; g.v = V10; g.kids = generate (m.kids, V10); r.push_back (g);
    g.kids.push_back (CEl::kv ("r", Val::in (11))); g.kids.push_back (CEl::section ("u", generate (find (m.kids, "u")->kids, V10)));
    CEl t = CEl::section ("t", { CEl::kv ("w", Val::en ("b")), CEl::kv ("z", Val::in (77)) });
    for (auto &e : g.kids) if (e.name == "s") { e.kids.push_back (t); e.kids.push_back (CEl::kv ("y", Val::bo (false))); }
    r.push_back (g);
    g.v = V20; g.kids.push_back (CEl::kv ("r", Val::in (12))); g.kids.push_back (CEl::kv ("o", Val::str ("present")));
    CEl u = CEl::section ("u", { t, CEl::section ("v", { CEl::kv ("x", Val::in (8)) }), CEl::kv ("x", Val::fl (2.5)), t }); u.kids[0].kids[1].val = Val::in (-3);
    g.kids.push_back (u); g.kids.push_back (CEl::kv ("r", Val::in (13)));
    r.push_back (g);
    return r;
}
// ---- reference model of paths ---------------------------------------------------------------
struct Comp { std::string name; long idx; };
static bool parse (const std::string &p, std::vector<Comp> &out)
{
    size_t at = 0;
    for (;;)
    {
        size_t dot = p.find ('.', at); std::string q = p.substr (at, dot == std::string::npos ? std::string::npos : dot - at);
        if (q.empty ()) return false;
        size_t a = q.find ('@'); Comp k; k.idx = 0; k.name = q.substr (0, a);
        if (k.name.empty ()) return false;
        if (a != std::string::npos)
        {
            std::string d = q.substr (a + 1); if (d.empty ()) return false;
            for (char ch : d) if (ch < '0' || ch > '9') return false;
            k.idx = d.size () > 9 ? 2000000000L : atol (d.c_str ());
        }
        out.push_back (k);
        if (dot == std::string::npos) return true;
        at = dot + 1;
    }
}
static CEl *at (std::vector<CEl> &k, const Comp &q) { long i = 0; for (auto &e : k) if (e.name == q.name && i++ == q.idx) return &e; return nullptr; }
static CEl *resolve (std::vector<CEl> &k, const std::vector<Comp> &p)
{
    std::vector<CEl> *cur = &k; CEl *e = nullptr;
    for (size_t i = 0; i < p.size (); i++) { e = at (*cur, p[i]); if (!e) return nullptr; if (i + 1 < p.size () && !e->sec) return nullptr; cur = &e->kids; }
    return e;
}
// the set as the model performs it; false: refused (g unchanged)
static bool model_set (const Mold &m, Cfg &g, const std::string &path, const Val &v)
{
    std::vector<Comp> p; if (!parse (path, p)) return false;
    Cfg n = g; std::vector<CEl> *cur = &n.kids; const std::vector<MEl> *mc = &m.kids;
    for (size_t i = 0; i < p.size (); i++)
    {
        const MEl *me = find (*mc, p[i].name); bool last = i + 1 == p.size ();
        if (!me || me->sec == last) return false;
        CEl *e = at (*cur, p[i]);
        if (!e)
        {
            int min, max; limits (*me, g.v, min, max); int have = count (*cur, p[i].name);
            if (p[i].idx != have || max < 0 || (max > 0 && have >= max)) return false;
            cur->push_back (last ? CEl::kv (p[i].name, v) : CEl::section (p[i].name, generate (me->kids, g.v)));
            e = &cur->back ();
        }
        if (last) { if (v.t != me->t || !value_allowed (*me, v, g.v)) return false; e->val = v; }
        cur = &e->kids; mc = &me->kids;
    }
    g = n; return true;
}
// ---- the real operations -----------------------------------------------------------------------
static enum disir_status set (disir_config *c, const std::string &p, const Val &v, int how)
{
    const char *q = p.c_str ();
    if (how == 0) switch (v.t)
    {
    case INT: return disir_config_set_keyval_integer (c, v.i, "%s", q); case STR: return disir_config_set_keyval_string (c, v.s.c_str (), "%s", q);
    case FLT: return disir_config_set_keyval_float (c, v.d, "%s", q); case BOOL: return disir_config_set_keyval_boolean (c, v.b, "%s", q); default: return disir_config_set_keyval_enum (c, v.s.c_str (), "%s", q);
    }
    disir_context *r = dc_config_getcontext (c); enum disir_status s;
    switch (v.t)
    {
    case INT: s = dc_config_set_keyval_integer (r, v.i, "%s", q); break; case STR: s = dc_config_set_keyval_string (r, v.s.c_str (), "%s", q); break;
    case FLT: s = dc_config_set_keyval_float (r, v.d, "%s", q); break; case BOOL: s = dc_config_set_keyval_boolean (r, v.b, "%s", q); break; default: s = dc_config_set_keyval_enum (r, v.s.c_str (), "%s", q);
    }
    dc_putcontext (&r); return s;
}
static enum disir_status get (disir_config *c, const std::string &p, Val &v, int t, int how)
{
    const char *q = p.c_str (), *x = NULL; uint8_t b = 0; enum disir_status s; v = Val (); v.t = t;
    disir_context *r = dc_config_getcontext (c);
    switch (t)
    {
    case INT: s = how ? dc_config_get_keyval_integer (r, &v.i, "%s", q) : disir_config_get_keyval_integer (c, &v.i, "%s", q); break;
    case STR: s = how ? dc_config_get_keyval_string (r, &x, "%s", q) : disir_config_get_keyval_string (c, &x, "%s", q); if (x) v.s = x; break;
    case FLT: s = how ? dc_config_get_keyval_float (r, &v.d, "%s", q) : disir_config_get_keyval_float (c, &v.d, "%s", q); break;
    case BOOL: s = how ? dc_config_get_keyval_boolean (r, &b, "%s", q) : disir_config_get_keyval_boolean (c, &b, "%s", q); v.b = b; break;
    default: s = how ? dc_config_get_keyval_enum (r, &x, "%s", q) : disir_config_get_keyval_enum (c, &x, "%s", q); if (x) v.s = x;
    }
    dc_putcontext (&r); return s;
}
static const int TYPES[] = { INT, STR, FLT, BOOL, ENUM };
static const char *NAMES[] = { "k", "r", "o", "s", "u", "x", "y", "t", "z", "w", "v", "n", "nope", "" };
static const char *IDX[] = { "", "@0", "@1", "@2", "@3", "@-1", "@", "@x", "@1x", "@00", "@01", "@4294967296", "@4294967297", "@18446744073709551616", "@2147483648", "@@1", "@1@1" };
static Val good (const Mold &m, const std::string &path, int n)
{
    std::vector<Comp> p; if (!parse (path, p)) return Val::in (4);
    const std::vector<MEl> *k = &m.kids; const MEl *e = nullptr;
    for (auto &q : p) { e = find (*k, q.name); if (!e) return Val::in (4); k = &e->kids; }
    switch (e->t) { case STR: return Val::str (strf ("new %d", n)); case FLT: return Val::fl (4.25 + n); case BOOL: return Val::bo (n & 1); case ENUM: return Val::en (n & 1 ? "b" : "a"); default: return Val::in (4 + n); }
}
static std::string component (Ctx &c, int ni, int nj)
{
    return std::string (NAMES[c.choose (ni)]) + IDX[c.choose (nj)];
}
static std::string path (Ctx &c, bool full)
{
    int n = c.choose (3) + 1;
    if (n == 1) return component (c, 14, 17);
    if (n == 2) { std::string a = component (c, 14, full ? 17 : 11), b = component (c, 14, full ? 17 : 11); return a + "." + b; }
    // three components: through sections only, plus their malformed neighbours
    static const char *A[] = { "s", "u", "u@1", "s@0", "u@2", "s@1", "k", "", "n" }, *B[] = { "t", "t@1", "t@2", "v", "v@0", "x", "t@", "nope" };
    std::string a = A[c.choose (9)], b = B[c.choose (8)], z = component (c, 14, full ? 17 : 6);
    return a + "." + b + "." + z;
}
struct World
{
    Mold m; MoldH mh; CfgH ch; Cfg g;
    void make (Ctx &c, int shape)
    {
        m = mold (); MC_CHECK (c, build_mold (m, &mh.p) == DISIR_STATUS_OK, "mold", "mold refused");
        g = shapes (m)[shape]; Steps S; enum disir_status s = build_config (g, mh.p, &ch.p, &S);
        MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "config", "%s refused: %s", show (g).c_str (), st (s));
    }
    void same (Ctx &c, const char *sig, const char *what)
    {
        Cfg d; std::string err; MC_CHECK (c, dump_config (ch.p, d, err), "dump", "%s", err.c_str ());
        MC_CHECK (c, d == g, sig, "%s: the config is %s, expected %s", what, show (d).c_str (), show (g).c_str ());
    }
};
// worlds are kept between executions that only read
static World *cached[3];
static void reading (Ctx &c)
{
    int shape = c.choose (3); std::string p = path (c, c.thorough ());
    if (!cached[shape]) { cached[shape] = new World; cached[shape]->make (c, shape); }
    World &w = *cached[shape];
    c.note ("get %s from %s", quote (p).c_str (), show (w.g).c_str ());
    std::vector<Comp> q; bool ok = parse (p, q); CEl *e = ok ? resolve (w.g.kids, q) : nullptr;
    c.state (strf ("%d ", shape) + p); if (ok) c.nontrivial (strf ("%d ", shape) + p);
    for (int t : TYPES) for (int how = 0; how < 2; how++)
    {
        Val v; enum disir_status s = get (w.ch.p, p, v, t, how); c.outcome (st (s));
        if (e && !e->sec && e->val.t == t) MC_CHECK (c, s == DISIR_STATUS_OK && v == e->val, "get", "%s of %s: %s %s, expected %s", tname (t), quote (p).c_str (), st (s), v.show ().c_str (), e->val.show ().c_str ());
        else if (e && !e->sec) MC_CHECK (c, s == DISIR_STATUS_WRONG_VALUE_TYPE, "get-type", "%s of %s, which is %s: %s", tname (t), quote (p).c_str (), tname (e->val.t), st (s));
        else MC_CHECK (c, s != DISIR_STATUS_OK, "get-none", "%s of %s, which addresses no keyval: %s %s", tname (t), quote (p).c_str (), st (s), v.show ().c_str ());
    }
    disir_context *r = dc_config_getcontext (w.ch.p), *f = NULL; enum disir_status s = dc_query_resolve_context (r, "%s", &f, p.c_str ());
    if (!e) MC_CHECK (c, s != DISIR_STATUS_OK, "resolve-none", "%s resolves: %s", quote (p).c_str (), st (s));
    else
    {
        MC_CHECK (c, s == DISIR_STATUS_OK && f, "resolve", "%s does not resolve: %s", quote (p).c_str (), st (s));
        CEl d; const char *n = NULL; dc_get_name (f, &n, NULL); d.name = n ? n : ""; d.sec = dc_context_type (f) == DISIR_CONTEXT_SECTION; std::string err;
        if (d.sec) dump_kids (f, d.kids, err); else get_value (f, d.val);
        MC_CHECK (c, d == *e, "resolve", "%s resolves to %s, expected %s", quote (p).c_str (), show (std::vector<CEl> { d }).c_str (), show (std::vector<CEl> { *e }).c_str ());
        // the name of the resolved context leads back to it
        char *name = NULL; disir_context *again = NULL; s = dc_resolve_root_name (f, &name);
        MC_CHECK (c, s == DISIR_STATUS_OK && name, "root-name", "%s", st (s));
        s = dc_query_resolve_context (r, "%s", &again, name);
        MC_CHECK (c, s == DISIR_STATUS_OK && again == f, "root-name", "the root name of %s is %s, which resolves to something else (%s)", quote (p).c_str (), name, st (s));
        free (name); dc_putcontext (&again); dc_putcontext (&f);
    }
    // relative to the first component's section
    if (ok && q.size () > 1 && e)
    {
        disir_context *sec = NULL, *g = NULL; size_t dot = p.find ('.'); s = dc_query_resolve_context (r, "%s", &sec, p.substr (0, dot).c_str ());
        MC_CHECK (c, s == DISIR_STATUS_OK, "relative", "%s", st (s)); s = dc_query_resolve_context (sec, "%s", &g, p.substr (dot + 1).c_str ());
        MC_CHECK (c, s == DISIR_STATUS_OK && g, "relative", "%s from %s: %s", p.substr (dot + 1).c_str (), p.substr (0, dot).c_str (), st (s));
        dc_putcontext (&g); dc_putcontext (&sec);
    }
    dc_putcontext (&r);
    // molds are queried alike (every entry once)
    disir_context *mr = dc_mold_getcontext (w.mh.p), *me = NULL; const std::vector<MEl> *k = &w.m.kids; const MEl *want = nullptr;
    if (ok) for (size_t i = 0; i < q.size (); i++) { want = k && q[i].idx == 0 ? find (*k, q[i].name) : nullptr; if (!want) break; k = want->sec ? &want->kids : nullptr; if (!k && i + 1 < q.size ()) { want = nullptr; break; } }
    s = dc_query_resolve_context (mr, "%s", &me, p.c_str ());
    MC_CHECK (c, (s == DISIR_STATUS_OK) == (want != nullptr), "mold", "%s in the mold: %s", quote (p).c_str (), st (s));
    if (me) dc_putcontext (&me);
    dc_putcontext (&mr); c.validated ();
}
static void step (Ctx &c, World &w, const std::string &p, const Val &v, int how)
{
    c.note ("set %s to %s (%s)", quote (p).c_str (), v.show ().c_str (), how ? "dc_config_set_keyval" : "disir_config_set_keyval");
    c.transition (show (w.g), p + v.show ());
    Cfg before = w.g; bool ok = model_set (w.m, w.g, p, v);
    c.risk (ok ? "set" : "set-refused");
    size_t h = heap (); enum disir_status s = set (w.ch.p, p, v, how); size_t h2 = heap (); c.outcome (strf ("%s %d", st (s), ok));
    MC_CHECK (c, (s == DISIR_STATUS_OK) == ok, ok ? "set-refused" : "set-accepted", "setting %s to %s in %s: %s", quote (p).c_str (), v.show ().c_str (), show (before).c_str (), st (s));
    w.same (c, ok ? "set-content" : "refused-changed", strf ("after %s set of %s", ok ? "a" : "a refused", quote (p).c_str ()).c_str ());
    MC_CHECK (c, disir_config_valid (w.ch.p, NULL) == DISIR_STATUS_OK, "valid", "the config is no longer valid after setting %s", quote (p).c_str ());
    if (!ok) { set (w.ch.p, p, v, how); size_t h3 = heap (), d; set (w.ch.p, p, v, how); d = heap () - h3; (void) h; (void) h2; MC_CHECK (c, d == 0, "leak", "a refused set of %s keeps %zu bytes", quote (p).c_str (), d); }
    c.state (show (w.g));
}
// one set of every path
static void one (Ctx &c)
{
    int shape = c.choose (3), how = c.choose (2), kind = c.choose (3); std::string p = path (c, c.thorough ());
    static Mold m0 = mold (); Val v = good (m0, p, 1);
    if (kind == 1) v = v.t == INT ? Val::str ("wrong type") : Val::in (4);
    if (kind == 2) { if (v.t == INT) v = Val::in (99); else if (v.t == ENUM) v = Val::en ("c"); else c.prune (); }
    c.nontrivial (strf ("%d%d", shape, kind) + p);
    static World *kept[3]; World *&w = kept[shape];      // a refused set leaves the config as it was: kept until one is accepted
    if (!w) { w = new World; w->make (c, shape); }
    std::unique_ptr<World> mine (w); w = nullptr; Cfg before = mine->g;
    step (c, *mine, p, v, how); c.validated ();
    if (mine->g == before) w = mine.release ();
}
// sequences of sets
static void seq (Ctx &c)
{
    static const char *P[] = { "k", "r", "r@1", "r@2", "r@3", "o", "s.x", "s.y", "s.y@1", "s.t.z", "s.t@1.w", "s.t.w@1", "u.x", "u@1.x", "u@1.t.z", "u.v.x", "u@2.x", "s@1.x", "n.x", "u.t@1.w", "k.x", "s", "u@1.t.x" };
    int depth = c.thorough () ? 4 : 3; World w; w.make (c, c.choose (2) * 2);
    std::string key;
    for (int i = 0; i < depth; i++)
    {
        std::string p = P[c.choose (23)]; Val v = good (w.m, p, i); if (c.choose (2)) { if (i + 1 == depth) { v = v.t == INT ? Val::in (99) : Val::in (1); } else c.prune (); }
        key += p + v.show (); step (c, w, p, v, i & 1);
    }
    c.nontrivial (key); c.validated ();
}
// long paths and format arguments; deep nesting
static void lengths (Ctx &c)
{
    int n = c.choose (3); World w; w.make (c, 1);
    static const int LEN[] = { 100, 2040, 2045, 2046, 2047, 2048, 2049, 2060, 4096, 10000 }; int len = LEN[c.choose (10)];
    std::string p = n == 0 ? std::string (len, 'a') : n == 1 ? "s." + std::string (len - 2, 'a') : "k@" + std::string (len - 2, '0');
    c.note ("path of %d bytes, shape %d", len, n); c.nontrivial (strf ("%d %d", n, len)); c.state (strf ("%d %d", n, len));
    Val v; enum disir_status s = get (w.ch.p, p, v, INT, 0);
    if (n < 2 || len >= 2048) MC_CHECK (c, s != DISIR_STATUS_OK, "long", "get: %s", st (s)); else MC_CHECK (c, s == DISIR_STATUS_OK && v == Val::in (1), "long", "get: %s", st (s));
    s = set (w.ch.p, p, Val::in (9), 0); c.outcome (st (s));
    if (n == 2 && len < 2048) { w.g.kids[0].val = Val::in (9); MC_CHECK (c, s == DISIR_STATUS_OK, "long", "set: %s", st (s)); } else MC_CHECK (c, s != DISIR_STATUS_OK, "long", "set: %s", st (s));
    w.same (c, "long-changed", "after a long path");
    // formatted paths
    for (int i = 0; i < 3; i++) { int64_t x = 0; s = disir_config_get_keyval_integer (w.ch.p, &x, "r@%d", i); MC_CHECK (c, (s == DISIR_STATUS_OK) == (i == 0), "format", "r@%d: %s", i, st (s)); }
    s = disir_config_set_keyval_integer (w.ch.p, 5, "%s@%d.%s", "u", 1, "nope"); MC_CHECK (c, s != DISIR_STATUS_OK, "format", "%s", st (s)); w.same (c, "format", "after a refused formatted set");
    s = disir_config_set_keyval_float (w.ch.p, 5, "%s@%d.%s", "u", 1, "x"); MC_CHECK (c, s == DISIR_STATUS_OK, "format", "%s", st (s)); model_set (w.m, w.g, "u@1.x", Val::fl (5)); w.same (c, "format", "after a formatted set"); c.validated ();
}
static void depth (Ctx &c)
{
    int d = c.choose (26) + 1; MEl e = MEl::kv ("leaf", Val::in (3)); CEl x = CEl::kv ("leaf", Val::in (3)); std::string p = "leaf";
    for (int i = 0; i < d; i++) { e = MEl::section (strf ("s%d", i), { e }); x = CEl::section (strf ("s%d", i), { x }); p = strf ("s%d.", i) + p; }
    World w; w.m.kids = { e }; MC_CHECK (c, build_mold (w.m, &w.mh.p) == DISIR_STATUS_OK, "mold", "mold refused"); w.g.kids = { x };
    MC_CHECK (c, build_config (w.g, w.mh.p, &w.ch.p) == DISIR_STATUS_OK, "config", "config refused"); c.note ("nesting depth %d: %s", d, p.c_str ()); c.nontrivial (p); c.state (p);
    Val v; c.risk ("deep"); enum disir_status s = get (w.ch.p, p, v, INT, 0); MC_CHECK (c, s == DISIR_STATUS_OK && v == Val::in (3), "deep", "%s", st (s));
    disir_context *r = dc_config_getcontext (w.ch.p), *f = NULL; dc_query_resolve_context (r, "%s", &f, p.c_str ()); char *name = NULL;
    s = dc_resolve_root_name (f, &name); MC_CHECK (c, s == DISIR_STATUS_OK && name && p == name, "deep-name", "%s %s", st (s), name ? name : "(null)"); free (name);
    dc_putcontext (&f); dc_putcontext (&r);
    s = set (w.ch.p, p, Val::in (4), 0); MC_CHECK (c, s == DISIR_STATUS_OK, "deep", "%s", st (s)); model_set (w.m, w.g, p, Val::in (4)); w.same (c, "deep", "deep set"); c.validated ();
}
// root names of contexts that are still being built
static void building (Ctx &c)
{
    int sib = c.choose (3), named = c.choose (2), kind = c.choose (2), insec = c.choose (2), fin = c.choose (2);
    Mold m; m.kids = { MEl::kv ("k", Val::in (1)).with (Res::max (0)), MEl::section ("s", { MEl::kv ("k", Val::in (1)).with (Res::max (0)), MEl::section ("i").with (Res::max (0)) }).with (Res::max (0)), MEl::section ("i").with (Res::max (0)) };
    MoldH mh; MC_CHECK (c, build_mold (m, &mh.p) == DISIR_STATUS_OK, "mold", "mold refused");
    disir_context *r = NULL, *p, *sec = NULL, *e = NULL; dc_config_begin (mh.p, &r); p = r; Steps S;
    if (insec) { dc_begin (r, DISIR_CONTEXT_SECTION, &sec); dc_set_name (sec, "s", 1); p = sec; }
    const char *n = kind ? "i" : "k"; build_config_kids (S, p, std::vector<CEl> (sib, kind ? CEl::section ("i") : CEl::kv ("k", Val::in (2))));
    dc_begin (p, kind ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &e); if (named) dc_set_name (e, n, 1);
    c.note ("root name of a %s%s %s%s with %d finished siblings", fin ? "finished " : "", named ? "named" : "unnamed", kind ? "section" : "keyval", insec ? " in an unfinished section" : "", sib);
    c.nontrivial (strf ("%d%d%d%d%d", sib, named, kind, insec, fin)); c.state (strf ("%d%d%d%d%d", sib, named, kind, insec, fin));
    if (fin) { if (!kind) dc_set_value_integer (e, 1); dc_finalize (&e); if (e) dc_putcontext (&e); dc_find_element (p, n, sib, &e); if (!e) { if (named) c.fail ("find", "finished element not found"); if (sec) dc_destroy (&sec); dc_destroy (&r); c.prune (); } }
    c.risk ("unfinished-name"); char *name = NULL; enum disir_status s = dc_resolve_root_name (e, &name); c.outcome (st (s));
    std::string want = std::string (insec ? "s." : "") + n + (sib ? strf ("@%d", sib) : "");
    if (fin && named && !insec) MC_CHECK (c, s == DISIR_STATUS_OK && name && want == name, "name", "%s %s, expected %s", st (s), name ? name : "(null)", want.c_str ());
    MC_CHECK (c, (s == DISIR_STATUS_OK) == (name != NULL), "name", "%s with %s", st (s), name ? name : "no name");
    free (name); if (fin) dc_putcontext (&e); else dc_destroy (&e);
    if (sec) dc_destroy (&sec); dc_destroy (&r); c.validated ();
}
int main (int argc, char **argv)
{
    Info i = { "C13", "exploration",
        "paths of up to three components over 14 names (known, unknown, empty) and 17 position suffixes (none, in range, out of range, negative, empty, non-numeric, beyond 32 and 64 bits), read with every typed getter and resolved "
        "as contexts from the config, its sections and its mold in three config shapes; one set of every such path with a fitting value, a value of another type and a forbidden value; all sequences of three (thorough: four) sets over 23 paths; "
        "path lengths around the internal limit; nesting up to 26 levels; root names of finished and unfinished contexts",
        { "generated ancestors hold the model's minimum entries", "a position written with a sign or spaces other than a minus is not explored" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "reading", 3, reading }, { "one", 5, one }, { "seq", 3, seq }, { "lengths", 2, lengths }, { "depth", 1, depth }, { "building", 3, building, false, 5 } });
}
