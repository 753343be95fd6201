// C20: entry ids cannot reach outside the configured directories
// technique: exhaustive enumeration of entry ids (segments over an alphabet of well- and ill-formed names, separators, absolute paths, lengths) for every operation on the real instance, with every file system call recorded and modifications outside the directories intercepted
#include "fs.h"
#include "sys.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::string base, CF, MO; static disir_instance *in; static disir_mold *mp; static disir_config *cp; static std::string mt, ct; static fs::Snap full; static bool watched;
static const char *SEG[] = { "a", "..", "", ".", "b_1", "A", "a b", "...", "__namespace", "a.json", "..a", "\xc3\xa9", "~", "a\nb" };
static void layout ()
{
    fs::clear (base); fs::mkdirs (CF + "/a/b_1"); fs::mkdirs (MO + "/a/b_1"); fs::mkdirs (CF + "/A"); fs::mkdirs (MO + "/a b"); fs::mkdirs (MO + "/...");
    // files an escaping id could meet, at every level above and beside the directories
    std::string up = base; for (const char *d : { "", "/w", "/w/o", "/w/o/u", "/w/o/u/t" }) { std::string p = base + d; fs::mkdirs (p + "/a"); for (const char *n : { "/a.json", "/b_1.json", "/__namespace.json", "/a/a.json", "/A.json", "/..json", "/...json", "/.json", "/m.json", "/c.json" }) fs::put (p + n, mt); fs::put (p + "/a.toml", ct); }
    for (const char *n : { "/a.json", "/b_1.json", "/a/__namespace.json", "/a/a.json", "/a/b_1/a.json", "/a/b_1.json", "/A.json", "/a b.json", "/...json", "/..json", "/.../a.json", "/a b/a.json", "/~.json", "/\xc3\xa9.json", "/a.json.json", "/..a.json", "/a\nb.json" }) fs::put (MO + n, mt);
    for (const char *n : { "/a.json", "/b_1.json", "/a/a.json", "/A.json", "/...json", "/..json" }) fs::put (CF + n, ct);
    full = fs::snap (base);
}
static std::string text (bool config)
{
    fs::mkdirs (base + "/x"); std::string m = base + "/x/m", c = base + "/x/c"; fs::mkdirs (m); fs::mkdirs (c); disir_instance *i = fs::empty (); fs::attach (i, false, c, m, "g"); fs::put (m + "/a.json", mt); std::string s = mt;
    if (config) { if (disir_config_write (i, "g", "a", cp) || !fs::get (c + "/a.json", s)) abort (); } disir_instance_destroy (&i); return s;
}
static void init (const char *s)
{
    base = s; CF = base + "/w/o/u/t/c"; MO = base + "/w/o/u/t/m"; Mold m; m.kids = { MEl::kv ("k", Val::in (1)) }; mt = fs::mold_text (m); Steps S; Cfg g; g.v = Ver (1, 0); g.kids = { CEl::kv ("k", Val::in (7)) };
    if (build_mold (m, &mp, &S) || build_config (g, mp, &cp, &S)) abort (); ct = text (true); in = fs::empty (); fs::attach (in, false, CF, MO, "g"); watched = sys::arm (base.c_str ()); layout ();
}
enum { READ, WRITE, REMOVE, QUERY, MREAD, MWRITE, MQUERY, OPS };
static const char *ON[] = { "disir_config_read", "disir_config_write", "disir_config_remove", "disir_config_query", "disir_mold_read", "disir_mold_write", "disir_mold_query" };
static void run (Ctx &c, const std::string &id, int op, int again = 0)
{
    if (!again) c.note ("%s %s\n", ON[op], id.size () > 300 ? strf ("(%zu bytes)", id.size ()).c_str () : quote (id).c_str ()); c.risk ("crash");
    bool formed = true; for (char x : id) if (!((x >= 'a' && x <= 'z') || (x >= '0' && x <= '9') || x == '_' || x == '/')) formed = false;
    disir_error_clear (in); enum disir_status s = DISIR_STATUS_OK; disir_config *g = NULL; disir_mold *m = NULL; disir_entry *e = NULL; size_t h0 = heap (); sys::begin ();
    switch (op)
    {
    case READ: s = disir_config_read (in, "g", id.c_str (), NULL, &g); break; case WRITE: s = disir_config_write (in, "g", id.c_str (), cp); break; case REMOVE: s = disir_config_remove (in, "g", id.c_str ()); break; case QUERY: s = disir_config_query (in, "g", id.c_str (), &e); break;
    case MREAD: s = disir_mold_read (in, "g", id.c_str (), &m); break; case MWRITE: s = disir_mold_write (in, "g", id.c_str (), mp); break; case MQUERY: s = disir_mold_query (in, "g", id.c_str (), &e); break;
    }
    sys::end (); bool got = g || m || e; if (g) disir_config_finished (&g); if (m) disir_mold_finished (&m); if (e) disir_entry_finished (&e); disir_error_clear (in); size_t h1 = heap ();
    bool ok = s == DISIR_STATUS_OK || s == DISIR_STATUS_EXISTS, touched = false; std::string config = CF, mold = MO;
    for (int i = 0; i < sys::nrec; i++)
    {
        sys::Call &k = sys::rec[i]; if (k.modifies && k.fd < 0) touched = true; bool opens = k.nr == SYS_open || k.nr == SYS_openat || k.nr == SYS_creat; if (!opens && !(k.modifies && k.fd < 0)) continue;
        bool cfg = sys::below (k.path, CF.c_str ()), mol = sys::below (k.path, MO.c_str ()), two = !k.path2[0] || sys::below (k.path2, CF.c_str ()) || sys::below (k.path2, MO.c_str ());
        // creating a directory that is there already has no effect (mkdir -p)
        if (k.nr == SYS_mkdir && k.ret == -EEXIST) continue;
        if (!((cfg || mol) && two)) { std::string why = sys::show (k); layout (); c.fail ("outside", "%s %s: %s", ON[op], quote (id).c_str (), why.c_str ()); }
    }
    if (touched || !watched) { fs::Snap now = fs::snap (base), a = full; auto drop = [&] (fs::Snap &x) { for (auto i = x.begin (); i != x.end ();) { std::string p = base + "/" + i->first; if (sys::below (p.c_str (), CF.c_str ()) || sys::below (p.c_str (), MO.c_str ())) i = x.erase (i); else ++i; } }; drop (now); drop (a); std::string d = fs::diff (a, now); if (d.size ()) { layout (); c.fail ("outside", "%s %s changes files outside: %s", ON[op], quote (id).c_str (), d.c_str ()); } layout (); }
    if (!formed) MC_CHECK (c, !ok && !got, "ill-formed", "%s of the ill-formed id %s: %s", ON[op], quote (id.substr (0, 60)).c_str (), st (s));
    if (formed) MC_CHECK (c, s != DISIR_STATUS_RESTRICTION_VIOLATED, "well-formed", "%s of the well-formed id %s is refused: %s", ON[op], quote (id.substr (0, 60)).c_str (), st (s));
    if (!formed) MC_CHECK (c, !touched, "ill-formed-effect", "%s of the ill-formed id %s changes files", ON[op], quote (id.substr (0, 60)).c_str ());
    // what the C library keeps from a first time is not a leak
    if (h1 != h0 && again < 2) { layout (); return run (c, id, op, again + 1); } MC_CHECK (c, h1 == h0, "leak", "%s keeps %zd bytes every time", ON[op], (ssize_t) (h1 - h0));
    MC_CHECK (c, !sys::overflow, "too-many-calls", "%s makes too many system calls", ON[op]);
    c.state (id + strf ("#%d", op)); c.outcome (strf ("%s %s", ON[op], st (s))); c.nontrivial (id.substr (0, 100) + ON[op]); c.validated ();
}
// all ids of up to n segments, with and without leading and trailing separator
static void segments (Ctx &c)
{
    int n = c.choose (c.thorough () ? 6 : 5) + 1, lead = c.choose (2); std::string id = lead ? "/" : ""; for (int i = 0; i < n; i++) { if (i) id += "/"; id += SEG[c.choose (n > (c.thorough () ? 5 : 4) ? 8 : sizeof SEG / sizeof *SEG)]; }
    run (c, id, c.choose (OPS));
}
// climbing out and down again, for every depth, and absolute paths of files that are there
static void climbs (Ctx &c)
{
    int down = c.choose (3), up = c.choose (8), tail = c.choose (7); std::string id; for (int i = 0; i < down; i++) id += "a/"; for (int i = 0; i < up; i++) id += "../";
    static const char *T[] = { "a", "t/m/a", "c/a", "m/a", "", "..", "new/new" }; id += T[tail]; int abs = c.choose (3); if (abs == 1) id = "/" + id; if (abs == 2) id = base + "/w/o/" + id; run (c, id, c.choose (OPS));
}
// every byte in every position of a short id
static void bytes (Ctx &c)
{
    int pos = c.choose (4), b = c.choose (255) + 1; std::string id = "a/a"; if (pos < 3) id[pos] = (char) b; else id += (char) b; run (c, id, c.choose (OPS));
}
// lengths around the limits of file names and paths
static void lengths (Ctx &c)
{
    static const int L[] = { 100, 127, 128, 200, 248, 249, 250, 251, 254, 255, 256, 1000, 3000 }; int k = c.choose (c.thorough () ? 3 : 2); std::string id; int op;
    if (k == 0) id = std::string (L[c.choose (sizeof L / sizeof *L)], 'a');
    else if (k == 1) { int extra = c.choose (60); int n = 4096 - (int) CF.size () - 40 + extra; bool dirs = c.choose (2); id = std::string (n, 'a'); if (dirs) for (size_t i = 100; i + 1 < id.size (); i += 101) id[i] = '/'; else if (c.choose (2)) id[n / 2] = '/'; }
    else { int n = 4000 + c.choose (200); id = std::string (n, 'a'); for (size_t i = 20; i + 1 < id.size (); i += 21) id[i] = '/'; }
    op = c.choose (OPS); run (c, id, op); if (op == WRITE || op == MWRITE) layout ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C20", "exploration",
        "Every id of up to four segments (five in the thorough tier) over fourteen well- and ill-formed names and of one segment more over eight of them, with and without a leading separator; every climb of up to seven levels with seven targets, relative, rooted and absolute; every byte at every position of a short id; lengths around the limits; each with all seven operations, in a tree that has valid documents at every place an escape would reach. Every system call is recorded; opening or changing anything outside the two directories, an accepted ill-formed id, or a well-formed one refused as ill-formed, is a violation.",
        { "no symbolic links inside the directories", "probing the existence of a path (stat) is not counted as reading it" }, init, NULL };
    return mc::main (argc, argv, i, { { "segments", 3, segments }, { "climbs", 2, climbs }, { "bytes", 2, bytes }, { "lengths", 2, lengths } });
}
