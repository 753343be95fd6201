// Round trips of configs through a document format: shared by C09 (JSON) and C11 (TOML).
#ifndef RT_H
#define RT_H
#include "mm.h"
#include <unistd.h>
#include <sys/mman.h>
#include <disir/plugin.h>
namespace rt {
using namespace mc; using namespace mm;
// an anonymous file that documents are written to and read from
struct Doc
{
    FILE *f;
    Doc () { f = fdopen (memfd_create ("doc", 0), "w+"); setvbuf (f, NULL, _IONBF, 0); }
    ~Doc () { fclose (f); }
    void rewind () { fflush (f); lseek (fileno (f), 0, SEEK_SET); }
    std::string text ()
    {
        fflush (f); std::string r; char b[4096]; ssize_t n; off_t o = 0;
        while ((n = pread (fileno (f), b, sizeof b, o)) > 0) { r.append (b, n); o += n; }
        return r;
    }
    void put (const std::string &s) { if (ftruncate (fileno (f), 0)) abort (); rewind (); if (write (fileno (f), s.data (), s.size ()) != (ssize_t) s.size ()) abort (); rewind (); }
};
struct Format
{
    const char *name;
    enum disir_status (*write) (disir_instance *, disir_config *, FILE *);
    enum disir_status (*read) (disir_instance *, FILE *, disir_mold *, disir_config **);
};
inline disir_instance *instance ()
{
    static disir_instance *i;
    if (!i && disir_instance_create (NULL, NULL, &i)) abort ();
    return i;
}
struct World { Mold m; disir_mold *p; World () : p (NULL) {} };
// writes, reads back, compares, writes again
inline void trip (Ctx &c, const Format &F, World &w, const Cfg &g)
{
    if (!w.p) { Steps S; enum disir_status s = build_mold (w.m, &w.p, &S); if (s || S.any_bad) c.fail ("mold", "%s: %s %s", show (w.m).c_str (), st (s), S.log.empty () ? "" : S.log[0].c_str ()); }
    disir_instance *in = instance ();
    c.note ("%s\n%s\n", show (w.m).c_str (), show (g).c_str ());
    c.nontrivial (show (g));
    disir_error_clear (in); size_t h0 = heap ();
    {
        CfgH a, b; Steps S; enum disir_status s = build_config (g, w.p, &a.p, &S);
        MC_CHECK (c, s == DISIR_STATUS_OK, "config", "the config %s is not accepted: %s", show (g).c_str (), st (s));
        static bool warm; if (!warm) { warm = true; Doc x; F.write (in, a.p, x.f); }
        size_t h1 = heap ();
        {
            Doc d, e; s = F.write (in, a.p, d.f);
            MC_CHECK (c, s == DISIR_STATUS_OK, "write", "writing %s: %s", show (g).c_str (), st (s));
            Cfg now; std::string err, t = d.text (); c.note ("%s\n", t.c_str ());
            MC_CHECK (c, dump_config (a.p, now, err) && now == g, "write-changes", "writing changes the config to %s %s", show (now).c_str (), err.c_str ());
            d.rewind (); s = F.read (in, d.f, w.p, &b.p);
            MC_CHECK (c, s == DISIR_STATUS_OK && b.p, "read", "reading back: %s", st (s));
            MC_CHECK (c, dump_config (b.p, now, err), "dump", "%s", err.c_str ());
            MC_CHECK (c, now.v == g.v, "version", "version %s became %s", g.v.str ().c_str (), now.v.str ().c_str ());
            MC_CHECK (c, by_name (now.kids) == by_name (g.kids), "content", "%s became %s", show (g).c_str (), show (now).c_str ());
            disir_collection *bad = NULL;
            MC_CHECK (c, disir_config_valid (b.p, &bad) == DISIR_STATUS_OK && !bad, "valid", "the config read back is not valid");
            disir_context *x = dc_config_getcontext (a.p), *y = dc_config_getcontext (b.p);
            s = dc_compare (x, y, NULL); dc_putcontext (&x); dc_putcontext (&y);
            MC_CHECK (c, s == DISIR_STATUS_OK, "compare", "the config read back compares different: %s", st (s));
            s = F.write (in, b.p, e.f);
            MC_CHECK (c, s == DISIR_STATUS_OK && e.text () == t, "again", "writing again (%s) gives\n%s\ninstead of\n%s", st (s), e.text ().c_str (), t.c_str ());
            disir_config_finished (&b.p);
        }
        disir_error_clear (in);
        MC_CHECK (c, heap () == h1, "leak", "the round trip keeps %zd bytes", (ssize_t) (heap () - h1));
    }
    c.outcome ("ok"); c.validated ();
}
// ---- single values ------------------------------------------------------------------------------
inline World &world (const char *key, std::function<Mold ()> f)
{
    static std::vector<std::pair<std::string, World *>> all;
    for (auto &x : all) if (x.first == key) return *x.second;
    World *w = new World; w->m = f (); all.push_back ({ key, w }); return *w;
}
inline World &value_world (Val v)
{
    return world (tname (v.t), [&] () {
        Mold m; MEl k = MEl::kv ("k", v).with (Res::min (0)).with (Res::max (0)), l = MEl::kv ("l", v).with (Res::min (0)).with (Res::max (0));
        m.kids = { k, MEl::section ("s", { l }).with (Res::min (0)).with (Res::max (0)) }; return m; });
}
// a value alone at top level, repeated, in a section and repeated in sections
inline Cfg spread (const Val &v, const Val &o, int how)
{
    Cfg g;
    switch (how)
    {
    case 0: g.kids = { CEl::kv ("k", v) }; break;
    case 1: g.kids = { CEl::kv ("k", o), CEl::kv ("k", v), CEl::kv ("k", v) }; break;
    case 2: g.kids = { CEl::section ("s", { CEl::kv ("l", v) }) }; break;
    default: g.kids = { CEl::section ("s", { CEl::kv ("l", v), CEl::kv ("l", o) }), CEl::section ("s", { CEl::kv ("l", v) }) }; break;
    }
    return g;
}
inline const std::vector<std::string> &chars ()
{
    static std::vector<std::string> v;
    if (v.empty ())
    {
        for (int i = 1; i < 256; i++) v.push_back (std::string (1, (char) i));
        for (auto s : { "\xc3\xa6", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xc2\x80", "\xe2\x80\xa8", "\xed\x9f\xbf", "\xef\xbf\xbf" }) v.push_back (s);
    }
    return v;
}
inline std::vector<Val> floats (bool thorough)
{
    std::vector<Val> r; std::vector<uint64_t> man = { 0, 1, 0xfffffffffffffull, 0x5555555555555ull, 0x999999999999aull, 0x8000000000000ull };
    if (thorough) for (int b = 1; b < 52; b += 1) { man.push_back (1ull << b); man.push_back ((1ull << b) - 1); }
    for (int e = 0; e < 2047; e += thorough ? 1 : 7)
        for (auto m : man)
            for (int s = 0; s < 2; s++) { uint64_t u = ((uint64_t) s << 63) | ((uint64_t) e << 52) | m; double d; memcpy (&d, &u, 8); r.push_back (Val::fl (d)); }
    for (double d : { 0.1, 0.2, 0.1 + 0.2, 1.0 / 3, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.0, 3.14, 1e-5, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.000001, 0.0000001, 100.0, 1e6, 1234567.891, 9007199254740993.0, 72057594037927945.0 })
    { r.push_back (Val::fl (d)); r.push_back (Val::fl (-d)); }
    return r;
}
inline std::vector<Val> ints ()
{
    std::vector<Val> r;
    for (int b = 0; b < 63; b++) for (int d = -1; d <= 1; d++) { int64_t x = (1ll << b) + d; r.push_back (Val::in (x)); r.push_back (Val::in (-x)); }
    for (long long x : { (long long) INT64_MAX, (long long) INT64_MIN, INT64_MAX - 1ll, INT64_MIN + 1ll, 1000000000000000000ll, -1000000000000000000ll, 9007199254740993ll, 10ll, 99ll, 100ll, 12345678901ll }) r.push_back (Val::in (x));
    return r;
}
inline void numbers (Ctx &c, const Format &F)
{
    if (c.choose (2)) { static auto v = ints (); Val x = v[c.choose (v.size ())]; trip (c, F, value_world (Val::in (1)), spread (x, Val::in (7), c.choose (4))); }
    else { static auto q = floats (false), t = floats (true); auto &v = c.thorough () ? t : q; Val x = v[c.choose (v.size ())]; trip (c, F, value_world (Val::fl (1)), spread (x, Val::fl (2.5), c.choose (c.thorough () ? 2 : 4))); }
}
// strings: every one and two character string over ASCII and selected UTF-8, embedded in text or alone
inline void strings (Ctx &c, const Format &F)
{
    auto &v = chars (); int mode = c.choose (5); std::string s;
    if (mode == 0) { s = v[c.choose (v.size ())]; s += v[c.choose (v.size ())]; trip (c, F, value_world (Val::str ("x")), spread (Val::str (s), Val::str (""), 0)); return; }
    if (mode == 1) { std::string a = v[c.choose (v.size ())]; int k = c.choose (4); s = k == 0 ? a : k == 1 ? "x" + a : k == 2 ? a + "x" : "x" + a + "y"; }
    else if (mode == 2)
    {
        static const char *w[] = { "", " ", "\\", "\"", "\n", "'", "#", "=", "[", "]", "{", "}", ",", ":", "a", "1", "true", "\\u0041", "\\n", "//", "/*", "\"\"\"", "'''", "\r\n", "%s", "%n", "null", ".", "-", "\t" };
        int n = c.choose (c.thorough () ? 4 : 3); for (int i = 0; i < n; i++) s += w[c.choose (30)];
    }
    else if (mode == 3) { static const int L[] = { 0, 1, 2, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 65536, 1000000 }; int n = L[c.choose (16)], k = c.choose (3); for (int i = 0; i < n; i++) s += k == 0 ? 'a' : k == 1 ? "\\\"\n\x01"[i % 4] : (char) (i % 95 + 32); }
    else { static const char *w[] = { "1", "1.0", "true", "false", "", "null", "[]", "{}", "1979-05-27", "1979-05-27T07:32:00Z", "inf", "nan", "0x10", "1_000", "@DISIR_CONFIG_VERSION", "version", "config" }; s = w[c.choose (17)]; }
    trip (c, F, value_world (Val::str ("x")), spread (Val::str (s), Val::str ("other"), c.choose (4)));
}
// enum values of any text, booleans
inline void other (Ctx &c, const Format &F)
{
    if (c.choose (2)) { bool b = c.choose (2); int h = c.choose (4); trip (c, F, value_world (Val::bo (true)), spread (Val::bo (b), Val::bo (!b), h)); return; }
    static const char *w[] = { "one", "two words", "", "1", "true", "\"q\"", "\\", "\xc3\xa6", "a\nb" };
    World &wd = world ("enums", [&] () { Mold m; MEl k = MEl::kv ("k", Val::en ("one")).with (Res::min (0)).with (Res::max (0)); for (auto x : w) if (*x) k.with (Res::en (x)); MEl l = k; l.name = "l"; m.kids = { k, MEl::section ("s", { l }).with (Res::min (0)).with (Res::max (0)) }; return m; });
    const char *x = w[c.choose (9)]; if (!*x) c.prune ();
    trip (c, F, wd, spread (Val::en (x), Val::en ("one"), c.choose (4)));
}
// every arrangement of up to n entries over keyvals and sections two levels deep, at two versions
inline void shapes (Ctx &c, const Format &F, int total)
{
    World &w = world ("shapes", [] () {
        auto many = [] (MEl e) { return e.with (Res::min (0)).with (Res::max (0)); };
        Mold m;
        std::vector<MEl> deep = { many (MEl::kv ("a", Val::in (1))), many (MEl::kv ("b", Val::str ("x"))) };
        m.kids = { many (MEl::kv ("a", Val::in (1))), many (MEl::kv ("b", Val::str ("x"))), many (MEl::kv ("f", Val::fl (1), Ver (1, 0))), many (MEl::section ("s", { deep[0], deep[1], many (MEl::section ("t", deep)) })), many (MEl::section ("version", { deep[0] })), many (MEl::kv ("config", Val::bo (true))), many (MEl::kv ("n", Val::in (1), Ver (2, 7))) };
        m.docs = { { Ver (2, 7), "doc" } };
        return m; });
    Cfg g; g.v = c.choose (2) ? Ver (2, 7) : Ver (1, 3); int serial = 0, left = total;
    std::function<void (const std::vector<MEl> &, std::vector<CEl> &, int)> fill = [&] (const std::vector<MEl> &m, std::vector<CEl> &k, int depth) {
        while (left > 0)
        {
            int i = c.choose (m.size () + 1); if (i == (int) m.size ()) return;
            const MEl &e = m[i]; int mn, mx; limits (e, g.v, mn, mx); if (mx < 0) c.prune ();
            left--; serial++;
            if (e.sec) { CEl s = CEl::section (e.name); fill (e.kids, s.kids, depth + 1); k.push_back (s); }
            else k.push_back (CEl::kv (e.name, e.t == INT ? Val::in (serial) : e.t == STR ? Val::str (strf ("t%d", serial)) : e.t == FLT ? Val::fl (serial) : Val::bo (serial & 1)));
        }
    };
    fill (w.m.kids, g.kids, 0);
    c.state (show (g)); trip (c, F, w, g);
}
}
#endif
