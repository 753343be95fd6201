// C03: value restrictions accept exactly the values declared for the version
// technique: exhaustive exploration of the real library over all small sets of value restrictions, compared with a reference model
#include "mm.h"
using namespace mc; using namespace mm;

static const Ver IN[] = { Ver (1, 0), Ver (1, 2), Ver (2, 0) };
static const Ver DEP[] = { Ver (1, 2), Ver (2, 0), Ver (0, 9) };
static const std::vector<Ver> AT = { Ver (1, 0), Ver (1, 1), Ver (1, 2), Ver (2, 0), Ver (2, 1) };

static std::vector<Res> alphabet (int t)
{
    if (t == INT) return { Res::range (1, 3), Res::range (-5, -1), Res::num (0), Res::num (5), Res::range (3, 1), Res::range (2, 2) };
    if (t == FLT) return { Res::range (0, 1), Res::range (-1.5, -0.25), Res::num (0.5), Res::num (-2), Res::range (1, 0), Res::range (1, 1) };
    return { Res::en ("a"), Res::en ("b"), Res::en ("ab"), Res::en ("") };
}
static std::vector<Val> values (int t)
{
    std::vector<Val> r;
    if (t == INT) for (int x : { -6, -5, -1, 0, 1, 2, 3, 4, 5 }) r.push_back (Val::in (x));
    else if (t == FLT) for (double x : { -2.0, -1.6, -1.5, -0.25, -0.2, -0.0, 0.0, 0.5, 1.0, 1.0000000000000002 }) r.push_back (Val::fl (x));
    else for (const char *x : { "a", "b", "ab", "", "abc", "A", "c" }) r.push_back (Val::en (x));
    return r;
}
static Val wrong (int t) { return t == INT ? Val::fl (2.0) : t == FLT ? Val::in (1) : Val::str ("a"); }

static void verdicts (Ctx &c, const MEl &k, Ver at, const std::vector<Val> &vals, disir_mold *mold)
{
    c.state (show ({ k }) + at.str ());
    const Val *good = nullptr; for (auto &v : vals) if (value_allowed (k, v, at) && !good) good = &v;
    for (auto &v : vals)
    {
        bool ok = value_allowed (k, v, at);
        c.outcome (strf ("%s/%d/%d", tname (k.t), v.t == k.t, ok));
        // constructing: setter, keyval finalize and config finalize agree
        disir_context *root = NULL, *e = NULL; CfgH ch; disir_version ver = at.v ();
        dc_config_begin (mold, &root); dc_set_version (root, &ver);
        dc_begin (root, DISIR_CONTEXT_KEYVAL, &e); dc_set_name (e, "k", 1);
        enum disir_status s1 = set_value (e, v), s2 = dc_finalize (&e); if (e) dc_putcontext (&e);
        enum disir_status s3 = dc_config_finalize (&root, &ch.p); if (root) dc_destroy (&root);
        enum disir_status s4 = ch.p ? disir_config_valid (ch.p, NULL) : s3;
        enum disir_status want = ok ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT;
        MC_CHECK (c, s1 == want, "constructing-set", "setting %s at %s: %s", v.show ().c_str (), at.str ().c_str (), st (s1));
        MC_CHECK (c, s2 == want, "keyval-finalize", "finalizing keyval %s at %s: %s", v.show ().c_str (), at.str ().c_str (), st (s2));
        MC_CHECK (c, s3 == want && s4 == want, "config-finalize", "finalizing config with %s at %s: %s, disir_config_valid: %s", v.show ().c_str (), at.str ().c_str (), st (s3), st (s4));
    }
    if (!good) return;
    // finalized: a refused value leaves the previous one
    Cfg g; g.v = at; g.kids.push_back (CEl::kv ("k", *good)); CfgH ch;
    MC_CHECK (c, build_config (g, mold, &ch.p) == DISIR_STATUS_OK, "config-finalize", "valid config refused at %s", at.str ().c_str ());
    disir_context *root = dc_config_getcontext (ch.p), *e = NULL; dc_find_element (root, "k", 0, &e);
    Val cur = *good; std::string err;
    for (int round = 0; round < 2; round++)
        for (size_t n = 0; n < vals.size (); n++)
        {
            const Val &v = vals[round ? vals.size () - 1 - n : n];
            bool ok = value_allowed (k, v, at); enum disir_status s;
            if (round && v.t == INT) s = disir_config_set_keyval_integer (ch.p, v.i, "k");
            else if (round && v.t == FLT) s = disir_config_set_keyval_float (ch.p, v.d, "k");
            else if (round && v.t == ENUM) s = disir_config_set_keyval_enum (ch.p, v.s.c_str (), "k");
            else s = set_value (e, v);
            if (ok) cur = v;
            Val now; get_value (e, now);
            enum disir_status want = ok ? DISIR_STATUS_OK : v.t == k.t ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_WRONG_VALUE_TYPE;
            if (s != want) err = strf ("setting %s on a finalized keyval at %s: %s", v.show ().c_str (), at.str ().c_str (), st (s));
            else if (!(now == cur)) err = strf ("value is %s after setting %s (%s), expected %s", now.show ().c_str (), v.show ().c_str (), st (s), cur.show ().c_str ());
            if (!err.empty ()) break;
        }
    dc_putcontext (&e); dc_putcontext (&root);
    MC_CHECK (c, err.empty (), "finalized-set", "%s", err.c_str ());
    c.validated ();
}
static void run (Ctx &c, MEl k, const std::vector<Ver> &at, std::vector<Val> vals)
{
    Mold m; m.kids.push_back (k);
    m.kids.push_back (MEl::kv ("anchor", Val::in (0)).def (Ver (3, 0), Val::in (0)).with (Res::min (0)));
    c.note ("%s", show (m).c_str ());
    MoldH mh; Steps S; enum disir_status s = build_mold (m, &mh.p, &S);
    MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "mold", "mold refused: %s %s", st (s), S.log.empty () ? "" : S.log[0].c_str ());
    c.nontrivial (show (m));
    vals.push_back (wrong (k.t));
    for (auto &v : at) verdicts (c, k, v, vals, mh.p);
}
static MEl base (int t) { return MEl::kv ("k", t == INT ? Val::in (1) : t == FLT ? Val::fl (1) : Val::en ("a")); }
static Res pick (Ctx &c, int t, bool life)
{
    auto a = alphabet (t); Res r = a[c.choose (a.size ())];
    r.in = IN[c.choose (3)];
    if (life) { int d = c.choose (4); if (d) r.until (DEP[d - 1]); }
    return r;
}
static const int TY[] = { INT, FLT, ENUM };
// none, one or two restrictions with every introduced/deprecated combination
static void pairs (Ctx &c)
{
    int t = TY[c.choose (3)]; MEl k = base (t);
    int n = c.choose (3);
    for (int i = 0; i < n; i++) k.with (pick (c, t, true));
    if (c.thorough ()) { int o = c.choose (3); if (o) k.with (o == 1 ? Res::min (1, Ver (1, 2)) : Res::max (1)); }
    else if (n == 1 && c.choose (2)) k.res.insert (k.res.begin (), Res::max (2, Ver (1, 2)));
    run (c, k, AT, values (t));
}
static void triples (Ctx &c)
{
    int t = TY[c.choose (3)]; MEl k = base (t); auto a = alphabet (t); int n = c.thorough () ? a.size () : 3;
    for (int i = 0; i < 3; i++) { Res r = a[c.choose (n)]; r.in = IN[c.choose (3)]; if (c.choose (2)) r.until (DEP[1]); k.with (r); }
    run (c, k, { Ver (1, 0), Ver (1, 2), Ver (2, 0) }, values (t));
}
// numbers beyond 2^53 and at the ends of the integer range, and non-finite floats
static void extremes (Ctx &c)
{
    static const double P53 = 9007199254740992.0, P62 = 4611686018427387904.0, P63 = 9223372036854775808.0;
    int t = TY[c.choose (2)]; MEl k = base (t);
    static const double B[] = { -P63, -P53, 0, P53, P53 + 2, P62, P63, -INFINITY, INFINITY };
    int kind = c.choose (2);
    if (kind == 0) k.with (Res::num (B[c.choose (6)])); else { double lo = B[c.choose (9)], hi = B[c.choose (9)]; k.with (Res::range (lo, hi)); }
    std::vector<Val> v;
    if (t == INT)
        for (int64_t x : { INT64_MIN, INT64_MIN + 1, -(int64_t) P53 - 1, -(int64_t) P53, -(int64_t) P53 + 1, (int64_t) -1, (int64_t) 0, (int64_t) 1, (int64_t) P53 - 1, (int64_t) P53, (int64_t) P53 + 1,
                           (int64_t) P53 + 2, (int64_t) P53 + 3, (int64_t) P62 - 1, (int64_t) P62, (int64_t) P62 + 1, INT64_MAX - 1, INT64_MAX }) v.push_back (Val::in (x));
    else for (double x : { -P63, -P53, -1.0, 0.0, 4.9e-324, P53, P53 + 2, P62, P63, 1e308, -1e308, (double) INFINITY, (double) -INFINITY, (double) NAN }) v.push_back (Val::fl (x));
    run (c, k, { Ver (1, 0), Ver (2, 0) }, v);
}
// fractional bounds on integer keyvals count as their whole part
static void fractional (Ctx &c)
{
    MEl k = base (INT); static const double B[] = { -2.5, -1.999, -0.5, 0.5, 1.5, 2.999 };
    double lo = B[c.choose (6)], hi = B[c.choose (6)];
    if (c.choose (2)) k.with (Res::num (lo)); else k.with (Res::range (lo, hi));
    std::vector<Val> v; for (int i = -4; i <= 4; i++) v.push_back (Val::in (i));
    run (c, k, { Ver (1, 0) }, v);
}
int main (int argc, char **argv)
{
    Info i = { "C03", "exploration",
        "every integer, float and enum keyval with up to two value restrictions (6 or 4 kinds, introduced at 3 versions, deprecated at none or 3) or three over a reduced alphabet, plus bounds beyond 2^53, at the ends of "
        "the integer range, infinite and fractional, x config version x every value of a boundary set and one of the wrong type; each is judged by the constructing setter, keyval finalize, config finalize, "
        "disir_config_valid, the finalized setter and the path based setter",
        { "fractional bounds of integer keyvals are specified as their whole part, as the library stores them" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "pairs", 4, pairs }, { "triples", 4, triples }, { "extremes", 3, extremes }, { "fractional", 2, fractional } });
}
