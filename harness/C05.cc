// C05: generated configs are valid and hold exactly the required defaults
// technique: exhaustive exploration of the real generator over all small molds and target versions, compared with a reference model
#include "mm.h"
using namespace mc; using namespace mm;

static const Ver V10 (1, 0), V11 (1, 1), V20 (2, 0), V05 (0, 5);
static Val val (int t, int n)
{
    switch (t) { case STR: return Val::str (n ? strf ("text %d", n) : ""); case INT: return Val::in (n * 1000003LL - 7); case FLT: return Val::fl (n / 3.0); case BOOL: return Val::bo (n & 1); default: return Val::en (n & 1 ? "x" : "y"); }
}
static const int TYPES[] = { STR, INT, FLT, BOOL, ENUM };
static int serial;
// a keyval: type x default history x occurrence restrictions
static MEl keyval (Ctx &c, const char *n, int variety)
{
    int t = variety > 1 ? TYPES[c.choose (5)] : TYPES[serial % 5];
    MEl k; k.name = n; k.t = t;
    switch (c.choose (6))
    {
    case 0: k.def (V10, val (t, serial++)); break;
    case 1: k.def (V10, val (t, serial++)).def (V20, val (t, serial++)); break;
    case 2: k.def (V20, val (t, serial++)); break;
    case 3: k.def (V11, val (t, serial++)).def (V05, val (t, serial++)); break;
    case 4: k.def (V20, val (t, serial++)).def (V10, val (t, serial++)).def (V11, val (t, serial++)); break;
    default: k.def (V10, val (t, serial++)).until (V11); break;
    }
    if (t == ENUM) { k.with (Res::en ("x", V05)); k.with (Res::en ("y", V05)); }
    switch (c.choose (variety ? 6 : 3))
    {
    case 0: break;
    case 1: k.with (Res::min (0)); break;
    case 2: k.with (Res::min (2)).with (Res::max (3)); break;
    case 3: k.with (Res::min (1)).with (Res::min (0, V11)).with (Res::max (0)); break;
    case 4: k.with (Res::min (3, V20)).with (Res::max (5)); break;
    default: k.with (Res::max (4)); break;
    }
    return k;
}
static MEl section (Ctx &c, const char *n, std::vector<MEl> kids)
{
    MEl s = MEl::section (n, kids);
    switch (c.choose (6))
    {
    case 0: break;
    case 1: s.with (Res::min (0)); break;
    case 2: s.with (Res::min (2)).with (Res::max (0)); break;
    case 3: s.from (V11); break;
    case 4: s.until (V20); break;
    default: s.with (Res::min (1)).with (Res::min (2, V20)).with (Res::max (2)); break;
    }
    return s;
}
static void gen (Ctx &c, const Mold &m, disir_mold *mold, const Ver *at)
{
    Ver mv = mold_version (m), v = at ? *at : mv;
    bool ok = v <= mv;
    c.state (show (m) + v.str ());
    CfgH ch; disir_version x = v.v (), copy = x;
    enum disir_status s = disir_generate_config_from_mold (mold, at ? &x : NULL, &ch.p);
    c.outcome (strf ("%s/%d", st (s), ok));
    if (!ok) { MC_CHECK (c, s == DISIR_STATUS_CONFLICTING_SEMVER && !ch.p, "too-new", "generating at %s from a mold of version %s: %s", v.str ().c_str (), mv.str ().c_str (), st (s)); return; }
    MC_CHECK (c, s == DISIR_STATUS_OK && ch.p, "status", "generating at %s: %s", v.str ().c_str (), st (s));
    Cfg g, want; std::string err; want.v = v; want.kids = generate (m.kids, v);
    MC_CHECK (c, dump_config (ch.p, g, err), "dump", "%s", err.c_str ());
    MC_CHECK (c, g == want, "content", "generated %s, expected %s", show (g).c_str (), show (want).c_str ());
    MC_CHECK (c, valid (m, g), "model", "the reference model considers its own generated config invalid: %s", show (g).c_str ());
    s = disir_config_valid (ch.p, NULL);
    MC_CHECK (c, s == DISIR_STATUS_OK, "valid", "generated config is reported %s", st (s));
    MC_CHECK (c, !at || (x.sv_major == copy.sv_major && x.sv_minor == copy.sv_minor), "input", "the version passed in was modified");
    // generating again gives an equal, independent config; a change in one does not show in the other
    CfgH again; s = disir_generate_config_from_mold (mold, at ? &x : NULL, &again.p);
    MC_CHECK (c, s == DISIR_STATUS_OK && again.p != ch.p, "again", "second generation: %s", st (s));
    disir_config_finished (&ch.p);
    MC_CHECK (c, dump_config (again.p, g, err) && g == want, "again", "second generation gives %s, expected %s", show (g).c_str (), show (want).c_str ());
    c.validated ();
}
static void all (Ctx &c, const Mold &m)
{
    c.note ("%s", show (m).c_str ());
    MoldH mh; Steps S; enum disir_status s = build_mold (m, &mh.p, &S);
    MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "mold", "mold refused: %s %s", st (s), S.log.empty () ? "" : S.log[0].c_str ());
    c.nontrivial (show (m));
    static const Ver at[] = { Ver (0, 4), V05, V10, V11, Ver (1, 5), V20, Ver (2, 1), Ver (3, 0) };
    for (auto &v : at) gen (c, m, mh.p, &v);
    gen (c, m, mh.p, nullptr);
}
static void flat (Ctx &c)
{
    serial = 0; Mold m; m.kids.push_back (keyval (c, "b", 2)); m.kids.push_back (keyval (c, "a", c.thorough () ? 2 : 1));
    all (c, m);
}
static void nested (Ctx &c)
{
    serial = 3; Mold m; MEl a = keyval (c, "z", 1); m.kids.push_back (section (c, "s", { a, MEl::kv ("y", Val::str ("y")) }));
    m.kids.push_back (keyval (c, "k", c.thorough () ? 1 : 0));
    all (c, m);
}
static void deep (Ctx &c)
{
    serial = 1; Mold m; MEl a = keyval (c, "a", 0); MEl i = section (c, "i", { a }); MEl b = keyval (c, "b", 0);
    MEl o = section (c, "o", { b, i }); m.kids.push_back (o);
    all (c, m);
}
static void three (Ctx &c)
{
    serial = 2; Mold m; for (const char *n : { "c", "a", "b" }) m.kids.push_back (keyval (c, n, 0));
    all (c, m);
}
// filling a fresh config or section from its mold while building (dc_generate_from_config_root)
static void root (Ctx &c)
{
    serial = 4; Mold m; MEl a = keyval (c, "a", 1), b = keyval (c, "b", 0); m.kids.push_back (section (c, "s", { a, b })); m.kids.push_back (MEl::kv ("z", Val::in (1)).def (V20, Val::in (2)));
    c.note ("%s", show (m).c_str ());
    MoldH mh; MC_CHECK (c, build_mold (m, &mh.p) == DISIR_STATUS_OK, "mold", "mold refused");
    c.nontrivial (show (m));
    for (const Ver &v : { V10, V11, V20 })
    {
        int min, max; limits (m.kids[0], v, min, max); if (max < 0) continue;
        c.state (show (m) + v.str ());
        disir_context *r = NULL, *sec = NULL; disir_version x = v.v (); CfgH ch;
        dc_config_begin (mh.p, &r); dc_set_version (r, &x);
        dc_begin (r, DISIR_CONTEXT_SECTION, &sec); dc_set_name (sec, "s", 1);
        enum disir_status s = dc_generate_from_config_root (sec), f = dc_finalize (&sec); if (sec) dc_putcontext (&sec);
        disir_context *e = NULL; dc_begin (r, DISIR_CONTEXT_KEYVAL, &e); dc_set_name (e, "z", 1); dc_set_value_integer (e, 9); dc_finalize (&e); if (e) dc_putcontext (&e);
        dc_config_finalize (&r, &ch.p); if (r) dc_destroy (&r);
        Cfg g, want; std::string err; want.v = v; want.kids = { CEl::section ("s", generate (m.kids[0].kids, v)), CEl::kv ("z", Val::in (9)) };
        MC_CHECK (c, s == DISIR_STATUS_OK && f == DISIR_STATUS_OK && dump_config (ch.p, g, err) && g == want, "section", "generating a section at %s: %s, finalize %s, %s, expected %s", v.str ().c_str (), st (s), st (f), show (g).c_str (), show (want).c_str ());
        c.validated ();
    }
}
int main (int argc, char **argv)
{
    Info i = { "C05", "exploration",
        "molds of two keyvals (5 types x 6 default histories x 6 occurrence restrictions), a section with two keyvals beside a keyval, two nested sections, and three keyvals, with sections plain, optional, repeated, introduced "
        "later, deprecated or with a rising minimum; each generated at 8 versions from older than everything to newer than the mold and without a version, twice; and sections filled while building",
        { "molds whose default violates its own keyval's value restrictions cannot generate a valid config and are not in the scope" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "flat", 4, flat }, { "nested", 4, nested }, { "deep", 4, deep }, { "three", 4, three }, { "root", 3, root } });
}
