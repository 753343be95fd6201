// C10: molds survive a JSON write and read unchanged
// technique: exhaustive exploration of molds (every single and double edit of a mold with every attribute, every small mold, value grids) through the real JSON writer and reader, compared with a reference model of the content
#include "rt.h"
#include "molds.h"
using namespace mc; using namespace mm; using rt::instance; typedef rt::Doc File;
static const std::vector<Ver> PROBE = { Ver (0, 1), Ver (1, 0), Ver (1, 5), Ver (2, 0), Ver (3, 0), Ver (4, 0), Ver (9, 0) };
// bounds on integer keyvals count with their whole part
static void whole (std::vector<MEl> &k) { for (auto &e : k) { for (auto &r : e.res) if (r.kind != RENUM && !(e.t == FLT && r.kind != RMIN && r.kind != RMAX)) { r.x = trunc (r.x); r.y = trunc (r.y); } whole (e.kids); } }
static void trip (Ctx &c, const Mold &m)
{
    disir_instance *in = instance (); c.note ("%s\n", show (m).c_str ());
    MoldH a, b; Steps S; enum disir_status s = build_mold (m, &a.p, &S);
    if (s || S.any_bad || !a.p) c.prune ();
    std::string id = show (m); c.state (id); c.nontrivial (id);
    Mold want, back; std::string err; bool ok = dump_mold (a.p, want, PROBE, err); MC_CHECK (c, ok, "dump", "%s", err.c_str ());
    disir_error_clear (in);
    static bool warm; if (!warm) { warm = true; File x; dio_json_serialize_mold (in, a.p, x.f); x.rewind (); MoldH y; dio_json_unserialize_mold (in, x.f, &y.p); }
    {
        File d, e; s = dio_json_serialize_mold (in, a.p, d.f);
        MC_CHECK (c, s == DISIR_STATUS_OK, "write", "writing: %s", st (s));
        std::string t = d.text (); c.note ("%s\n", t.c_str ());
        Mold now; ok = dump_mold (a.p, now, PROBE, err); MC_CHECK (c, ok && show (now) == show (want), "write-changes", "writing changed the mold to %s", show (now).c_str ());
        d.rewind (); s = dio_json_unserialize_mold (in, d.f, &b.p);
        MC_CHECK (c, s == DISIR_STATUS_OK && b.p, "read", "reading back: %s", st (s));
        MC_CHECK (c, disir_mold_valid (b.p, NULL) == DISIR_STATUS_OK, "valid", "the mold read back is not valid");
        ok = dump_mold (b.p, back, PROBE, err); MC_CHECK (c, ok, "dump", "%s", err.c_str ());
        whole (want.kids); whole (back.kids);
        MC_CHECK (c, show (back) == show (want), "content", "\n%s became\n%s", show (want).c_str (), show (back).c_str ());
        disir_version v, w; dc_mold_get_version (a.p, &v); dc_mold_get_version (b.p, &w);
        MC_CHECK (c, !dc_version_compare (&v, &w), "version", "mold version %u.%u became %u.%u", v.sv_major, v.sv_minor, w.sv_major, w.sv_minor);
        s = dio_json_serialize_mold (in, b.p, e.f);
        MC_CHECK (c, s == DISIR_STATUS_OK && e.text () == t, "again", "writing again (%s) gives\n%s\ninstead of\n%s", st (s), e.text ().c_str (), t.c_str ());
        disir_mold_finished (&b.p); disir_error_clear (in);
       
    }
    c.outcome ("ok"); c.validated ();
}
static bool unique (const std::vector<MEl> &k) { std::vector<std::string> n; for (auto &e : k) { if (std::count (n.begin (), n.end (), e.name) || !unique (e.kids)) return false; n.push_back (e.name); } return true; }
// leaks: the same trip measured on the heap alone
static void leak (Ctx &c, const Mold &m)
{
    disir_instance *in = instance (); c.note ("%s\n", show (m).c_str ()); size_t h = heap ();
    {
        MoldH a; { Steps S; build_mold (m, &a.p, &S); }
        File d; MoldH b; if (a.p) { dio_json_serialize_mold (in, a.p, d.f); d.rewind (); dio_json_unserialize_mold (in, d.f, &b.p); }
    }
    disir_error_clear (in);
    MC_CHECK (c, heap () == h, "leak", "the round trip keeps %zd bytes", (ssize_t) (heap () - h));
    c.outcome ("released");
}
// documentation other than at 1.0 lives in a model of its own
static bool docs_plain (const std::vector<mm::Doc> &d) { return d.empty () || (d.size () == 1 && d[0].v == Ver (1, 0)); }
static bool docs_plain (const std::vector<MEl> &k) { for (auto &e : k) { if (!docs_plain (e.docs) || !docs_plain (e.kids)) return false; for (auto &r : e.res) if (!docs_plain (r.docs)) return false; } return true; }
static bool docs_plain (const Mold &m) { return docs_plain (m.docs) && docs_plain (m.kids) && unique (m.kids); }
static Mold plain_base () { Mold m = base_mold (); m.kids[1].res[0].docs.resize (1); return m; }
static void single (Ctx &c) { static auto v = edits (plain_base ()); const Mold &m = v[c.choose (v.size ())]; if (!docs_plain (m)) c.prune (); trip (c, m); leak (c, m); }
static void twice (Ctx &c)
{
    static auto v = edits (plain_base ()); int i = c.choose (v.size ()); if (!docs_plain (v[i])) c.prune ();
    static int at = -1; static std::vector<Mold> e; if (at != i) { e = edits (v[i]); at = i; }
    int j = c.choose (e.size ()); if (!docs_plain (e[j])) c.prune (); trip (c, e[j]);
}
static void documents (Ctx &c)
{
    // documentation with later versions
    Mold m; Ver v = c.choose (2) ? Ver (2, 0) : Ver (1, 5); MEl k = MEl::kv ("k", Val::in (1)).def (Ver (3, 0), Val::in (2)).with (Res::min (0)), s = MEl::section ("s", { MEl::kv ("x", Val::bo (true)) }); int w = c.choose (4);
    if (w == 0) m.docs = { { v, "d" } }; if (w == 1) k.docs = { { v, "d" } }; if (w == 2) s.docs = { { v, "d" } }; if (w == 3) { k.res[0].docs = { { Ver (1, 0), "a" }, { v, "d" } }; }
    m.kids = { k, s }; 
    MoldH a, b; if (build_mold (m, &a.p) || !a.p) c.prune (); c.note ("%s\n", show (m).c_str ()); c.nontrivial (show (m));
    File d; enum disir_status st1 = dio_json_serialize_mold (instance (), a.p, d.f); d.rewind (); enum disir_status st2 = dio_json_unserialize_mold (instance (), d.f, &b.p);
    MC_CHECK (c, !st1 && !st2 && b.p, "read", "%s %s", st (st1), st (st2));
    Mold x, y; std::string err; dump_mold (a.p, x, PROBE, err); dump_mold (b.p, y, PROBE, err);
    disir_version va, vb; dc_mold_get_version (a.p, &va); dc_mold_get_version (b.p, &vb);
    MC_CHECK (c, show (x) == show (y) && !dc_version_compare (&va, &vb), "doc-version", "documentation introduced at %s is written without its version: mold version %u.%u became %u.%u\n%s\n%s", v.str ().c_str (), va.sv_major, va.sv_minor, vb.sv_major, vb.sv_minor, show (x).c_str (), show (y).c_str ());
    c.validated ();
}
// every mold with up to n elements of a feature alphabet, nested up to two levels
static void small (Ctx &c, int total)
{
    int left = total, serial = 0;
    std::function<std::vector<MEl> (int)> fill = [&] (int depth) {
        std::vector<MEl> r;
        while (left > 0)
        {
            int n = 10 + (depth < 2 ? 3 : 0), i = c.choose (n); if (i == 0) return r;
            left--; std::string name = strf ("%c%d", "xyz"[serial % 3], serial); serial++; MEl e;
            switch (i)
            {
            case 1: e = MEl::kv (name, Val::in (-5)); break;
            case 2: e = MEl::kv (name, Val::in (7), Ver (2, 0)).def (Ver (2, 1), Val::in (8)).with (Res::range (0, 10)).with (Res::num (-3, Ver (2, 1))); break;
            case 3: e = MEl::kv (name, Val::fl (0.25)).with (Res::range (-0.5, 0.75)).with (Res::range (2, 2.5, Ver (2, 0)).until (Ver (3, 0))); break;
            case 4: e = MEl::kv (name, Val::str ("a \"b\"\n")).doc ("some\ndoc").until (Ver (3, 1)); break;
            case 5: e = MEl::kv (name, Val::bo (false)).with (Res::min (0)).with (Res::max (2)); break;
            case 6: e = MEl::kv (name, Val::en ("p")).with (Res::en ("p")).with (Res::en ("q", Ver (1, 1)).until (Ver (4, 0))); e.res[0].docs = { { Ver (1, 0), "P" } }; break;
            case 7: e = MEl::kv (name, Val::fl (3)); break;
            case 8: e = MEl::kv (name, Val::str ("")).with (Res::min (2)).with (Res::max (4, Ver (1, 1))).with (Res::max (0, Ver (2, 0))); break;
            case 9: e = MEl::kv ("type", Val::str ("integer")).def (Ver (2, 2), Val::str ("")); e.name = strf ("%s%d", i % 2 ? "defaults" : "elements", serial); if (serial == 1) e.name = "elements"; else if (serial == 2) e.name = "type"; else if (serial == 3) e.name = "defaults"; break;
            case 10: e = MEl::section (name, {}); e.kids = fill (depth + 1); break;
            case 11: e = MEl::section (name, {}).from (Ver (2, 0)).until (Ver (3, 0)).with (Res::min (0)).with (Res::max (3)); e.kids = fill (depth + 1); break;
            default: e = MEl::section (name, {}).doc ("sdoc").with (Res::max (5, Ver (1, 2))); e.res[0].docs = { { Ver (1, 0), "max" } }; e.kids = fill (depth + 1); break;
            }
            r.push_back (e);
        }
        return r;
    };
    Mold m; if (c.choose (2)) m.docs = { { Ver (1, 0), "the mold" } }; m.kids = fill (0); trip (c, m);
}
// single values as defaults and restrictions
static void numbers (Ctx &c)
{
    int what = c.choose (7); static auto I = rt::ints (); static auto fq = rt::floats (false), ft = rt::floats (true); auto &Fl = c.thorough () ? ft : fq;
    auto num = [&] () { static const double d[] = { 0, 1, -1, 0.5, -0.5, 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9007199254740992., 9.2233720368547748e18, 9223372036854775808., -9223372036854775808., 1.8446744073709552e19, 1e19, -1e19, 1e300, -1e300, 1e-7, 0.1, 1.0 / 3, 1e22, 123456789012345680. }; return d[c.choose (25)]; };
    Mold m;
    if (what == 0) m.kids = { MEl::kv ("k", I[c.choose (I.size ())]) };
    else if (what == 1) m.kids = { MEl::kv ("k", Fl[c.choose (Fl.size ())]) };
    else if (what == 2) { double a = num (), b = num (); if (!(a < b)) c.prune (); m.kids = { (c.choose (2) ? MEl::kv ("k", Val::fl (a)) : MEl::kv ("k", Val::in (a < -9e18 ? INT64_MIN : a > 9.2e18 ? INT64_MAX : (int64_t) ceil (a)))).with (Res::range (a, b)) }; }
    else if (what == 3) { double a = num (); m.kids = { (c.choose (2) ? MEl::kv ("k", Val::fl (a)) : MEl::kv ("k", Val::in (a <= -9e18 ? INT64_MIN : a > 9.2e18 ? INT64_MAX : (int64_t) a))).with (Res::num (a)) }; }
    else if (what == 4 || what == 5) { static const double n[] = { 0, 1, 2, 10, 255, 65536, 2147483647. }; double a = n[c.choose (7)]; MEl k = c.choose (2) ? MEl::section ("k", { MEl::kv ("x", Val::in (1)) }) : MEl::kv ("k", Val::in (1)); m.kids = { k.with (what == 4 ? Res::min (a) : Res::max (a)) }; }
    else { static const uint32_t n[] = { 0, 1, 2, 10, 65535, 2147483647u, 2147483648u, 4294967295u }; Ver v (n[c.choose (8)], n[c.choose (8)]); int w = c.choose (6); if (v == Ver (0, 0)) c.prune (); MEl k = MEl::kv ("k", Val::in (1)).with (Res::min (0)), s = MEl::section ("s", { MEl::kv ("x", Val::in (1)) });
        if (w == 0) k.defs[0].v = v; else if (w == 1) k.def (v, Val::in (2)); else if (w == 2) k.res[0].in = v; else if (w == 3) k.res[0].until (v); else if (w == 4) s.from (v); else { s.until (v); k.until (v); } m.kids = { k, s }; }
    trip (c, m);
}
static void strings (Ctx &c)
{
    auto &v = rt::chars (); int what = c.choose (4); std::string s = v[c.choose (v.size ())]; int n = c.choose (c.thorough () ? v.size () + 1 : 4); if (n) s += c.thorough () ? v[n - 1] : n == 1 ? "x" : n == 2 ? "\\" : s + "\"";
    Mold m; MEl k = MEl::kv ("k", Val::str (what == 0 ? s : "v"));
    if (what == 1) k = MEl::kv ("k", Val::en (s)).with (Res::en (s)).with (Res::en ("other"));
    if (what == 2) { k.doc (s); m.docs = { { Ver (1, 0), s } }; }
    if (what == 3) { k.with (Res::min (0)); k.res[0].docs = { { Ver (1, 0), s } }; }
    m.kids = { k, MEl::section ("s", { k }) }; if (what == 2) m.kids[1].doc (s);
    trip (c, m);
}
int main (int argc, char **argv)
{
    Info i = { "C10", "exploration",
        "a distinct mold written and read back: every single and every double edit of a mold carrying every attribute; every mold with up to 3 (thorough 4) elements of a twelve letter alphabet nested up to two levels; all numbers of a boundary grid as defaults, bounds, counts and versions; all characters in defaults, enumerations and documentation",
        { "names are unique within their parent", "values are finite; strings contain no NUL bytes", "bounds on integer keyvals are compared by their whole part" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "single", 1, single }, { "twice", 2, twice }, { "documents", 1, documents },
        { "small", 3, [] (Ctx &c) { small (c, c.thorough () ? 4 : 3); } },
        { "numbers", 2, numbers }, { "strings", 2, strings } });
}
