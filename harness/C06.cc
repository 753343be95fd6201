// C06: the default and documentation in force follow the version asked for
// technique: exhaustive exploration of all insertion orders of defaults and documentation through the real API, compared with a reference model
#include "mm.h"
using namespace mc; using namespace mm;

static const Ver VS[] = { Ver (1, 0), Ver (0, 5), Ver (1, 1), Ver (2, 0), Ver (2, 10) };
static const Ver PROBE[] = { Ver (0, 0), Ver (0, 5), Ver (0, 6), Ver (1, 0), Ver (1, 1), Ver (1, 9), Ver (2, 0), Ver (2, 1), Ver (2, 10), Ver (9, 0) };
static const int TYPES[] = { INT, STR, FLT, BOOL, ENUM };
static Val val (int t, int n)
{
    switch (t) { case STR: return Val::str (strf ("text %d", n)); case INT: return Val::in (n * 1000003LL - 7); case FLT: return Val::fl (n / 4.0); case BOOL: return Val::bo (n & 1); default: return Val::en (strf ("e%d", n)); }
}
static std::string text (const Val &v)
{
    switch (v.t) { case INT: return strf ("%lld", (long long) v.i); case FLT: return strf ("%f", v.d); case BOOL: return v.b ? "True" : "False"; default: return v.s; }
}
static std::string norm (std::string s) { for (auto &ch : s) ch = tolower (ch); return s; }
// every query of a mold keyval against the defaults it has been given (in insertion order)
static void queries (Ctx &c, disir_context *k, const std::vector<Def> &have, const char *where)
{
    char buf[200]; int32_t n;
    for (auto &p : PROBE)
    {
        disir_version v = p.v (); memset (buf, 'x', sizeof buf);
        enum disir_status s = dc_get_default (k, &v, sizeof buf, buf, &n);
        std::string want = text (active_default (have, p)->val);
        MC_CHECK (c, s == DISIR_STATUS_OK && norm (buf) == norm (want), "default", "%s: default at %s: %s %s, expected %s", where, p.str ().c_str (), st (s), buf, want.c_str ());
    }
    enum disir_status s = dc_get_default (k, NULL, sizeof buf, buf, &n);
    std::string want = text (active_default (have, Ver (99, 0))->val);
    MC_CHECK (c, s == DISIR_STATUS_OK && norm (buf) == norm (want), "newest", "%s: default without a version: %s %s, expected %s", where, st (s), buf, want.c_str ());
    // the contexts: every default once, oldest first, with its version and value
    std::vector<Def> sorted = have; std::stable_sort (sorted.begin (), sorted.end (), [] (const Def &a, const Def &b) { return a.v < b.v; });
    disir_collection *col = NULL; s = dc_get_default_contexts (k, &col);
    MC_CHECK (c, s == DISIR_STATUS_OK, "contexts", "%s: %s", where, st (s));
    MC_CHECK (c, dc_collection_size (col) == (int) have.size (), "contexts", "%s: %d contexts for %zu defaults", where, dc_collection_size (col), have.size ());
    size_t i = 0; std::string got;
    each (col, [&] (disir_context *d) { disir_version x = { 0, 0 }; Val w; dc_get_introduced (d, &x); get_value (d, w); got += strf ("%u.%u=%s ", x.sv_major, x.sv_minor, w.show ().c_str ());
        if (i < sorted.size () && !(sorted[i].v == Ver (x.sv_major, x.sv_minor) && sorted[i].val == w)) i = 1000;
        i++; return true; });
    MC_CHECK (c, i == have.size (), "contexts", "%s: default contexts in order: %s", where, got.c_str ());
}
static enum disir_status helper (disir_context *k, const Def &d)
{
    disir_version v = d.v.v ();
    switch (d.val.t)
    {
    case STR: case ENUM: return dc_add_default_string (k, d.val.s.c_str (), d.val.s.size (), &v);
    case INT: return dc_add_default_integer (k, d.val.i, &v);
    case FLT: return dc_add_default_float (k, d.val.d, &v);
    default: return dc_add_default_boolean (k, d.val.b, &v);
    }
}
static void defaults (Ctx &c)
{
    int t = TYPES[c.choose (5)], api = c.choose (3), n = c.choose (5) + 1;
    std::vector<Ver> order; bool dup = false;
    for (int i = 0; i < n; i++) { Ver v = VS[c.choose (5)]; for (auto &o : order) if (o == v) dup = true; order.push_back (v); if (dup && i + 1 < n) c.prune (); }
    if (n == 5 && !dup && !c.thorough ()) if (!(order[0] == VS[0]) && !(order[0] == VS[4])) c.prune ();
    std::string hist = tname (t); for (auto &o : order) hist += " " + o.str ();
    c.note ("%s through %s", hist.c_str (), api == 0 ? "dc_begin/dc_finalize" : api == 1 ? "dc_add_default_*" : "all begun, then finalized");
    if (!dup) c.nontrivial (hist);
    disir_context *m = NULL, *k = NULL; dc_mold_begin (&m); dc_begin (m, DISIR_CONTEXT_KEYVAL, &k); dc_set_name (k, "k", 1); dc_set_value_type (k, (enum disir_value_type) t);
    std::vector<Def> have; bool refused = false; Steps S;
    // before any default there is nothing to answer
    char buf[20]; enum disir_status s0 = dc_get_default (k, NULL, sizeof buf, buf, NULL);
    MC_CHECK (c, s0 != DISIR_STATUS_OK, "empty", "default of a keyval without defaults: %s", st (s0));
    std::vector<disir_context *> open;
    if (api == 2) for (int i = 0; i < n; i++)
    {
        disir_context *d = NULL; disir_version v = order[i].v (); S ("begin", dc_begin (k, DISIR_CONTEXT_DEFAULT, &d)); S ("introduced", dc_add_introduced (d, &v)); S ("value", set_value (d, val (t, i + 1))); open.push_back (d);
    }
    for (int i = 0; i < n; i++)
    {
        Def d = { order[i], val (t, i + 1) }; bool isdup = false; for (auto &h : have) isdup |= h.v == d.v;
        c.transition (strf ("%d/", (int) have.size ()) + (have.empty () ? "" : have.back ().v.str ()), d.v.str ());
        enum disir_status s;
        if (api == 0) { Steps q; s = add_default (q, k, d); }
        else if (api == 1) s = helper (k, d);
        else { s = dc_finalize (&open[i]); if (open[i]) { if (s == DISIR_STATUS_INVALID_CONTEXT) dc_putcontext (&open[i]); else dc_destroy (&open[i]); } }
        c.outcome (strf ("default %s dup %d", st (s), isdup));
        if (isdup) { MC_CHECK (c, s == DISIR_STATUS_INVALID_CONTEXT || s == DISIR_STATUS_CONFLICTING_SEMVER, "duplicate", "second default at %s: %s", d.v.str ().c_str (), st (s)); refused = true; break; }
        MC_CHECK (c, s == DISIR_STATUS_OK, "add", "adding the default at %s: %s", d.v.str ().c_str (), st (s));
        have.push_back (d);
        std::string key = hist.substr (0, 3); for (auto &h : have) key += h.v.str () + " "; c.state (key);
        queries (c, k, have, "while building");
    }
    if (t == ENUM) for (int i = 0; i < n; i++) { dc_add_restriction_value_enum (k, strf ("e%d", i + 1).c_str (), NULL, NULL, NULL); }
    enum disir_status s = dc_finalize (&k); if (k) dc_putcontext (&k);
    disir_mold *mold = NULL; enum disir_status f = dc_mold_finalize (&m, &mold); if (m) dc_destroy (&m);
    MoldH own; own.p = mold;
    c.outcome (strf ("keyval %s mold %s dup %d", st (s), st (f), refused));
    if (refused) { MC_CHECK (c, s == DISIR_STATUS_INVALID_CONTEXT && f == DISIR_STATUS_INVALID_CONTEXT, "duplicate", "a keyval with two defaults at one version finalizes as %s, its mold as %s", st (s), st (f)); return; }
    MC_CHECK (c, s == DISIR_STATUS_OK && f == DISIR_STATUS_OK && mold, "mold", "keyval: %s, mold: %s", st (s), st (f));
    disir_context *r = dc_mold_getcontext (mold), *e = NULL; dc_find_element (r, "k", 0, &e);
    MC_CHECK (c, e, "find", "keyval not found");
    queries (c, e, have, "in the mold"); dc_putcontext (&e); dc_putcontext (&r);
    disir_version mv; dc_mold_get_version (mold, &mv); Ver hi (1, 0); for (auto &h : have) if (hi < h.v) hi = h.v;
    MC_CHECK (c, Ver (mv.sv_major, mv.sv_minor) == hi, "mold-version", "mold version %u.%u, expected %s", mv.sv_major, mv.sv_minor, hi.str ().c_str ());
    // a config keyval answers with the defaults of its mold keyval
    disir_context *cr = NULL, *ck = NULL; dc_config_begin (mold, &cr); dc_begin (cr, DISIR_CONTEXT_KEYVAL, &ck);
    s0 = dc_get_default (ck, NULL, sizeof buf, buf, NULL);
    MC_CHECK (c, s0 != DISIR_STATUS_OK, "unnamed", "default of an unnamed config keyval: %s", st (s0));
    dc_set_name (ck, "k", 1);
    for (auto &p : PROBE)
    {
        disir_version v = p.v (); char b[200] = ""; int32_t z; s = dc_get_default (ck, &v, sizeof b, b, &z); std::string want = text (active_default (have, p)->val);
        MC_CHECK (c, s == DISIR_STATUS_OK && norm (b) == norm (want), "config", "default of a config keyval at %s: %s %s, expected %s", p.str ().c_str (), st (s), b, want.c_str ());
        s = dc_keyval_set_default (ck, &v); Val w; get_value (ck, w);
        MC_CHECK (c, s == DISIR_STATUS_OK && w == active_default (have, p)->val, "set-default", "keyval set to its default at %s: %s %s, expected %s", p.str ().c_str (), st (s), w.show ().c_str (), want.c_str ());
    }
    dc_destroy (&ck); dc_destroy (&cr);
    c.validated ();
}
// removing a default again: what remains answers
static void removed (Ctx &c)
{
    int n = c.choose (3) + 2; std::vector<Ver> order;
    for (int i = 0; i < n; i++) { Ver v = VS[c.choose (5)]; for (auto &o : order) if (o == v) c.prune (); order.push_back (v); }
    int victim = c.choose (n), again = c.choose (3);
    disir_context *m = NULL, *k = NULL; dc_mold_begin (&m); dc_begin (m, DISIR_CONTEXT_KEYVAL, &k); dc_set_name (k, "k", 1); dc_set_value_type (k, DISIR_VALUE_TYPE_INTEGER);
    std::vector<Def> have; Steps S; for (int i = 0; i < n; i++) { Def d = { order[i], val (INT, i) }; add_default (S, k, d); have.push_back (d); }
    std::vector<Def> sorted = have; std::sort (sorted.begin (), sorted.end (), [] (const Def &a, const Def &b) { return a.v < b.v; });
    std::string hist; for (auto &o : order) hist += o.str () + " "; c.note ("defaults %s, destroy number %d, then %s", hist.c_str (), victim, again == 0 ? "query" : again == 1 ? "add it again" : "remove a second");
    c.nontrivial (strf ("%s%d%d", hist.c_str (), victim, again)); c.state (hist + strf ("-%d", victim));
    c.risk ("destroy-default");
    for (int round = 0; round < (again == 2 ? 2 : 1); round++)
    {
        if (round) victim = 0;
        disir_collection *col = NULL; dc_get_default_contexts (k, &col); int i = 0; disir_context *d = NULL; enum disir_status s = DISIR_STATUS_OK;
        while (dc_collection_next (col, &d) == DISIR_STATUS_OK) { if (i++ == victim) s = dc_destroy (&d); else dc_putcontext (&d); }
        dc_collection_finished (&col);
        MC_CHECK (c, s == DISIR_STATUS_OK, "destroy", "%s", st (s));
        have.erase (std::remove_if (have.begin (), have.end (), [&] (const Def &x) { return x.v == sorted[victim].v; }), have.end ());
        Def gone = sorted[victim]; sorted.erase (sorted.begin () + victim);
        if (have.empty ()) { char b[9]; s = dc_get_default (k, NULL, sizeof b, b, NULL); MC_CHECK (c, s != DISIR_STATUS_OK, "empty", "%s", st (s)); }
        else queries (c, k, have, "after removal");
        if (again == 1) { s = add_default (S, k, gone); MC_CHECK (c, s == DISIR_STATUS_OK, "readd", "adding a removed default again: %s", st (s)); have.push_back (gone); queries (c, k, have, "after adding it again"); }
    }
    enum disir_status s = dc_finalize (&k), want = have.empty () ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_OK; if (k) dc_putcontext (&k);
    MC_CHECK (c, s == want, "finalize", "keyval with %zu defaults left: %s", have.size (), st (s));
    dc_destroy (&m); c.validated ();
}
// documentation: on molds, sections, keyvals and restrictions
static void docq (Ctx &c, disir_context *k, const std::vector<Def> &have, const char *where)
{
    const char *d = NULL; int32_t n = 0; enum disir_status s;
    if (have.empty ()) { s = dc_get_documentation (k, NULL, &d, &n); MC_CHECK (c, s != DISIR_STATUS_OK, "nodoc", "%s: %s", where, st (s)); return; }
    for (auto &p : PROBE)
    {
        disir_version v = p.v (); d = NULL; s = dc_get_documentation (k, &v, &d, &n); std::string want = active_default (have, p)->val.s;
        MC_CHECK (c, s == DISIR_STATUS_OK && d && want == d && n == (int) want.size (), "doc", "%s: documentation at %s: %s %s (%d), expected %s", where, p.str ().c_str (), st (s), d ? d : "(null)", n, want.c_str ());
    }
    s = dc_get_documentation (k, NULL, &d, NULL); std::string want = active_default (have, Ver (99, 0))->val.s;
    MC_CHECK (c, s == DISIR_STATUS_OK && d && want == d, "doc-newest", "%s: documentation without version: %s %s, expected %s", where, st (s), d, want.c_str ());
}
static void docs (Ctx &c)
{
    int host = c.choose (4), together = host == 3 ? c.choose (2) : 1, n = c.choose (4) + 1; static const char *hn[] = { "mold", "section", "keyval", "restriction" };
    std::vector<Ver> order; for (int i = 0; i < n; i++) order.push_back (VS[c.choose (5)]);
    std::string hist = hn[host]; for (auto &o : order) hist += " " + o.str ();
    c.note ("documentation of a %s%s", hist.c_str (), together ? ", all begun before the first is finalized" : ""); c.nontrivial (hist);
    disir_context *m = NULL, *k = NULL, *sec = NULL, *r = NULL; disir_version one = { 1, 0 };
    dc_mold_begin (&m); dc_begin (m, DISIR_CONTEXT_SECTION, &sec); dc_set_name (sec, "s", 1);
    dc_begin (sec, DISIR_CONTEXT_KEYVAL, &k); dc_set_name (k, "k", 1); dc_set_value_type (k, DISIR_VALUE_TYPE_INTEGER); dc_add_default_integer (k, 1, &one);
    dc_begin (k, DISIR_CONTEXT_RESTRICTION, &r); dc_set_restriction_type (r, DISIR_RESTRICTION_EXC_VALUE_NUMERIC); dc_restriction_set_numeric (r, 1);
    disir_context *h[] = { m, sec, k, r }; disir_context *host_c = h[host];
    std::vector<Def> have; std::vector<disir_context *> open; Ver hi (1, 0);
    docq (c, host_c, have, "without any");
    for (int i = 0; i < n; i++)
    {
        if (!together || i == 0)
            for (int j = i; j < (together ? n : i + 1); j++)
            {
                disir_context *d = NULL; enum disir_status s = dc_begin (host_c, DISIR_CONTEXT_DOCUMENTATION, &d); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "begin documentation: %s", st (s));
                disir_version v = order[j].v (); dc_add_introduced (d, &v); std::string x = strf ("documentation %d", j); dc_set_value_string (d, x.c_str (), x.size ()); open.push_back (d);
            }
        bool dup = false; for (auto &q : have) dup |= q.v == order[i];
        enum disir_status s = dc_finalize (&open[i]); c.outcome (strf ("doc %s %d", st (s), dup));
        c.transition (strf ("%d", (int) have.size ()), order[i].str ());
        if (dup) { MC_CHECK (c, s == DISIR_STATUS_CONFLICTING_SEMVER, "duplicate", "second documentation at %s: %s", order[i].str ().c_str (), st (s)); dc_destroy (&open[i]); }
        else { MC_CHECK (c, s == DISIR_STATUS_OK && !open[i], "add", "documentation at %s: %s", order[i].str ().c_str (), st (s)); have.push_back ({ order[i], Val::str (strf ("documentation %d", i)) }); if (hi < order[i]) hi = order[i]; }
        docq (c, host_c, have, "while building");
        std::string key = hn[host]; for (auto &q : have) key += " " + q.v.str (); c.state (key);
    }
    // once a mold, section or keyval is documented another documentation is refused, and nothing changes
    if (host < 3)
    {
        disir_context *d = NULL; enum disir_status s = dc_begin (host_c, DISIR_CONTEXT_DOCUMENTATION, &d); MC_CHECK (c, s == DISIR_STATUS_EXISTS && !d, "again", "another documentation: %s", st (s));
        s = dc_add_documentation (host_c, "another", 7); MC_CHECK (c, s == DISIR_STATUS_EXISTS, "again", "dc_add_documentation on a documented %s: %s", hn[host], st (s)); docq (c, host_c, have, "after a refused one");
    }
    enum disir_status s = dc_finalize (&r); MC_CHECK (c, s == DISIR_STATUS_OK, "restriction", "%s", st (s));
    s = dc_finalize (&k); MC_CHECK (c, s == DISIR_STATUS_OK, "keyval", "%s", st (s)); s = dc_finalize (&sec); MC_CHECK (c, s == DISIR_STATUS_OK, "section", "%s", st (s));
    MoldH mh; s = dc_mold_finalize (&m, &mh.p); MC_CHECK (c, s == DISIR_STATUS_OK, "mold", "%s", st (s));
    disir_version mv; dc_mold_get_version (mh.p, &mv); MC_CHECK (c, Ver (mv.sv_major, mv.sv_minor) == hi, "mold-version", "mold version %u.%u, expected %s", mv.sv_major, mv.sv_minor, hi.str ().c_str ());
    disir_context *x = dc_mold_getcontext (mh.p), *es = NULL, *ek = NULL;
    dc_find_element (x, "s", 0, &es); dc_find_element (es, "k", 0, &ek);
    if (host < 3) { disir_context *f[] = { x, es, ek }; docq (c, f[host], have, "in the mold"); }
    else { disir_collection *col = NULL; s = dc_restriction_collection (ek, &col); MC_CHECK (c, s == DISIR_STATUS_OK, "restrictions", "%s", st (s)); each (col, [&] (disir_context *q) { docq (c, q, have, "in the mold"); return true; }); }
    dc_putcontext (&ek); dc_putcontext (&es); dc_putcontext (&x); c.validated ();
}
// the mold's version is the highest any part mentions, whatever part that is and whatever was built before or after
static void version (Ctx &c)
{
    static const Ver W[] = { Ver (1, 1), Ver (2, 0), Ver (1, 0) };
    Mold m; MEl k = MEl::kv ("k", Val::in (1), c.choose (2) ? Ver (0, 7) : Ver (1, 0)), k2 = MEl::kv ("z", Val::in (2)), s = MEl::section ("s");
    auto pick = [&] { return W[c.choose (3)]; };
    std::vector<int> parts; int a = c.choose (9), b = c.choose (9); if (b < a) c.prune ();
    for (int p : { a, b }) switch (p)
    {
    case 0: if (k.hasdep) c.prune (); k.until (pick ()); break;
    case 1: k.def (Ver (1 + c.choose (2), 3), Val::in (5)); break;
    case 2: k.with (Res::min (1, pick ()).until (pick ())); break;
    case 3: k.with (Res::num (1, pick ()).until (pick ())); k.with (Res::range (-10, 10)); break;
    case 4: if (!k2.docs.empty ()) c.prune (); k2.doc ("d", pick ()); break;
    case 5: if (s.hasin) c.prune (); s.from (pick ()); break;
    case 6: if (s.hasdep) c.prune (); s.until (pick ()); break;
    case 7: { Res r = Res::max (4, pick ()); if (!s.res.empty ()) c.prune (); r.docs.push_back ({ pick (), "text" }); s.with (r); break; }
    default: if (!m.docs.empty ()) c.prune (); m.docs.push_back ({ pick (), "mold" }); break;
    }
    if (k.defs.size () == 3 && k.defs[1].v == k.defs[2].v) c.prune ();
    if (k.res.size () == 2 && k.res[0].kind == RMIN && k.res[0].in == k.res[1].in) c.prune ();
    int order = c.choose (2); s.kids.push_back (k); if (order) m.kids = { k2, s }; else m.kids = { s, k2 };
    c.note ("%s", show (m).c_str ()); c.nontrivial (show (m)); c.state (show (m));
    MoldH mh; Steps S; enum disir_status r = build_mold (m, &mh.p, &S); MC_CHECK (c, r == DISIR_STATUS_OK && !S.any_bad, "mold", "%s %s", st (r), S.log.empty () ? "" : S.log[0].c_str ());
    disir_version mv; dc_mold_get_version (mh.p, &mv); Ver want = mold_version (m);
    MC_CHECK (c, Ver (mv.sv_major, mv.sv_minor) == want, "mold-version", "mold version %u.%u, expected %s", mv.sv_major, mv.sv_minor, want.str ().c_str ());
    c.outcome (want.str ()); c.validated ();
}
int main (int argc, char **argv)
{
    Info i = { "C06", "exploration",
        "all insertion orders, with at most one repetition, of up to five defaults over five versions for every type, through three ways of adding them, queried at ten versions, without a version and as contexts "
        "after every step, in the finished mold and from a config; all removals of one or two of them; all sequences of up to four documentations over five versions on molds, sections, keyvals and restrictions; "
        "and the mold version for all pairs of version-bearing parts",
        { "values are compared through the text dc_get_default renders and through the typed getters of the default contexts" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "defaults", 4, defaults }, { "removed", 3, removed }, { "docs", 3, docs }, { "version", 3, version } });
}
