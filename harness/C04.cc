// C04: occurrence limits are those in force at the config's version
// technique: exhaustive exploration of the real library over all small restriction sets, compared with a reference model
#include "mm.h"
using namespace mc; using namespace mm;

static const Ver VS[] = { Ver (1, 0), Ver (1, 1), Ver (2, 0), Ver (0, 5) };
// an anchor keyval lifts the mold version to 3.0 so that every config version is allowed
static MEl anchor () { return MEl::kv ("anchor", Val::in (0), Ver (1, 0)).def (Ver (3, 0), Val::in (0)).with (Res::min (0)); }

static void place (Mold &m, MEl e, int where) { if (where) { MEl s = MEl::section ("outer"); s.from (Ver (0, 1)); s.kids.push_back (e); m.kids.push_back (s); } else m.kids.push_back (e); m.kids.push_back (anchor ()); }
static CEl entry (bool sec) { return sec ? CEl::section ("e") : CEl::kv ("e", Val::in (7)); }


static void one_config (Ctx &c, const MEl &e, int where, Ver at, int n, disir_mold *mold)
{
    int min, max; limits (e, at, min, max);
    Cfg g; g.v = at; std::vector<CEl> *k = &g.kids;
    if (where) { g.kids.push_back (CEl::section ("outer")); k = &g.kids[0].kids; }
    for (int i = 0; i < n; i++) k->push_back (entry (e.sec));
    bool ok = n >= min && (max == 0 || n <= (max < 0 ? 0 : max));
    c.outcome (strf ("%d/%d/%d", ok, min, max));
    CfgH ch; enum disir_status s = build_config (g, mold, &ch.p);
    MC_CHECK (c, (s == DISIR_STATUS_OK) == ok && (ok || s == DISIR_STATUS_INVALID_CONTEXT), "verdict", "%d occurrences with limits %d..%d at %s: %s", n, min, max, at.str ().c_str (), st (s));
    disir_collection *col = NULL; s = disir_config_valid (ch.p, &col);
    int size = col ? dc_collection_size (col) : 0; if (col) dc_collection_finished (&col);
    MC_CHECK (c, (s == DISIR_STATUS_OK) == ok && size == !ok, "valid-list", "disir_config_valid: %s, %d invalid contexts, for a config with %d occurrences and limits %d..%d at %s", st (s), size, n, min, max, at.str ().c_str ());
    c.validated ();
}
static void generated (Ctx &c, const MEl &e, int where, Ver at, disir_mold *mold)
{
    int min, max; limits (e, at, min, max);
    CfgH ch; disir_version v = at.v (); enum disir_status s = disir_generate_config_from_mold (mold, &v, &ch.p);
    MC_CHECK (c, s == DISIR_STATUS_OK, "generate", "generate at %s: %s", at.str ().c_str (), st (s));
    Cfg d; std::string err; MC_CHECK (c, dump_config (ch.p, d, err), "generate", "dump: %s", err.c_str ());
    const std::vector<CEl> *dk = &d.kids;
    if (where) { const CEl *o = nullptr; for (auto &x : d.kids) if (x.name == "outer") o = &x; MC_CHECK (c, o, "generate", "outer section missing"); dk = &o->kids; }
    MC_CHECK (c, count (*dk, "e") == min, "generate-count", "at %s: generated %d occurrences, minimum in force is %d", at.str ().c_str (), count (*dk, "e"), min);
    // adding to a finalized config: accepted exactly while below the maximum
    disir_context *root = dc_config_getcontext (ch.p), *par = root, *sec = NULL;
    if (where) { dc_find_element (root, "outer", 0, &sec); par = sec; }
    for (int i = min; i < min + 3; i++)
    {
        bool room = max == 0 || i < max;
        disir_context *x = NULL; dc_begin (par, e.sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x);
        enum disir_status n1 = dc_set_name (x, "e", 1), n2 = DISIR_STATUS_OK;
        if (!e.sec && n1 == DISIR_STATUS_OK) dc_set_value_integer (x, 7);
        n2 = n1 == DISIR_STATUS_OK ? dc_finalize (&x) : n1;
        if (x) dc_destroy (&x);
        if ((n2 == DISIR_STATUS_OK) != room) { if (sec) dc_putcontext (&sec); dc_putcontext (&root); c.fail ("append", "at %s: adding occurrence %d (limits %d..%d) to a finalized config: %s", at.str ().c_str (), i + 1, min, max, st (n2)); }
        if (!room) break;
    }
    if (sec) dc_putcontext (&sec);
    dc_putcontext (&root);
    c.validated ();
}
static void reported (Ctx &c, const MEl &e, int where, const Mold &m, disir_mold *mold)
{
    disir_context *root = dc_mold_getcontext (mold), *sec = NULL, *x = NULL;
    if (where) dc_find_element (root, "outer", 0, &sec);
    enum disir_status s = dc_find_element (sec ? sec : root, "e", 0, &x);
    int a = -7, b = -7, ra, rb; limits (e, mold_version (m), ra, rb);
    if (s == DISIR_STATUS_OK) { dc_restriction_entries_minimum (x, &a); dc_restriction_entries_maximum (x, &b); dc_putcontext (&x); }
    if (sec) dc_putcontext (&sec);
    dc_putcontext (&root);
    MC_CHECK (c, a == ra && b == rb, "query-limits", "reported limits at mold version %s: %d..%d, expected %d..%d", mold_version (m).str ().c_str (), a, b, ra, rb);
}
// one mold; all config versions and occurrence counts
static void run (Ctx &c, const MEl &e, int where, const std::vector<Ver> &at, int maxn)
{
    Mold m; place (m, e, where);
    c.note ("%s", show (m).c_str ());
    Steps S; MoldH mh; enum disir_status s = build_mold (m, &mh.p, &S);
    MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "mold", "mold refused: %s %s", st (s), S.log.empty () ? "" : S.log[0].c_str ());
    c.nontrivial (show (m));
    for (auto &v : at)
    {
        c.state (show (m) + v.str ());
        for (int n = 0; n <= maxn; n++) one_config (c, e, where, v, n, mh.p);
        generated (c, e, where, v, mh.p);
    }
    reported (c, e, where, m, mh.p);
}
static MEl base (bool sec, Ver in) { MEl e = sec ? MEl::section ("e") : MEl::kv ("e", Val::in (7), in); if (sec && !(in == Ver (1, 0))) e.from (in); return e; }

// up to two minimum and two maximum restrictions at distinct versions, in any insertion order
static void sets (Ctx &c)
{
    bool sec = c.choose (2); int where = c.choose (2);
    std::vector<Ver> at = { Ver (1, 0), Ver (1, 1), Ver (2, 0), Ver (2, 1) };
    MEl e = base (sec, Ver (1, 0));
    int nmin = c.choose (3), nmax = c.choose (3);
    std::vector<Res> rs; int used = -1;
    for (int i = 0; i < nmin; i++) { int v; if (i == 0) v = c.choose (3); else { v = c.choose (2); if (v >= used) v++; } used = v; rs.push_back (Res::min (c.choose (3), VS[v])); }
    used = -1;
    for (int i = 0; i < nmax; i++) { int v; if (i == 0) v = c.choose (3); else { v = c.choose (2); if (v >= used) v++; } used = v; rs.push_back (Res::max (c.choose (c.thorough () ? 4 : 3), VS[v])); }
    if (nmin && nmax && c.choose (2)) std::reverse (rs.begin (), rs.end ());
    for (auto &r : rs) e.with (r);
    run (c, e, where, at, 3);
}
// introduced and deprecated entries
static void life (Ctx &c)
{
    bool sec = c.choose (2); int where = c.choose (2);
    Ver in = VS[c.choose (4)];
    MEl e = base (sec, in);
    if (!sec && c.choose (2)) { Ver o = VS[c.choose (4)]; if (o == in) c.prune (); e.def (o, Val::in (8)); }
    int d = c.choose (4); static const Ver DV[] = { Ver (0, 7), Ver (1, 1), Ver (2, 0) };
    if (d) e.until (DV[d - 1]);
    if (c.choose (2)) e.with (Res::min (c.choose (2) * 2, VS[c.choose (2)]));
    if (c.choose (2)) e.with (Res::max (c.choose (2) * 3, VS[c.choose (2)]));
    std::vector<Ver> at = { Ver (0, 4), Ver (0, 5), Ver (0, 7), Ver (1, 0), Ver (1, 1), Ver (1, 2), Ver (2, 0), Ver (3, 0) };
    run (c, e, where, at, 3);
}
// three restrictions of the same kind
static void triples (Ctx &c)
{
    bool sec = c.choose (2), mx = c.choose (2);
    static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    static const Ver T[] = { Ver (1, 0), Ver (1, 9), Ver (2, 0) };
    const int *p = P[c.choose (6)]; MEl e = base (sec, Ver (1, 0));
    for (int i = 0; i < 3; i++) { int x = c.choose (3) + (mx ? 1 : 0); e.with (mx ? Res::max (x, T[p[i]]) : Res::min (x, T[p[i]])); }
    if (c.choose (2)) e.with (mx ? Res::min (1 + c.choose (2)) : Res::max (c.choose (2) * 4));
    std::vector<Ver> at = { Ver (1, 0), Ver (1, 8), Ver (1, 9), Ver (1, 10), Ver (2, 0), Ver (2, 1) };
    run (c, e, 0, at, 4);
}

int main (int argc, char **argv)
{
    Info i = { "C04", "exploration",
        "every mold entry (keyval/section, top level/nested) with up to two minimum and two maximum restrictions (or three of one kind) at distinct versions in every insertion order, "
        "introduced and deprecated, x config version x 0..4 occurrences; each config is finalized, the mold generated, the generated config extended past its maximum and the reported limits read",
        { "deprecation of occurrence restrictions and negative limits are not specified and not exercised" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "sets", 4, sets }, { "life", 4, life }, { "triples", 3, triples } });
}
