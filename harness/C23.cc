// C23: export followed by import restores the exported configs
// technique: exhaustive exploration of the real export and import: every sequence of appends up to a depth on fresh and existing archives against the set of entries a model of the archive holds, each imported into empty and differing systems
#include "arc.h"
#include "molds.h"
using namespace mc; using namespace mm; using arc::Id;
extern "C" int mc_log_to_null;
static arc::Content source, differs;
static Cfg cfg (int i, Ver v, bool big)
{
    Cfg c; c.v = v; c.kids = { CEl::kv ("k", Val::in (i)), CEl::kv ("t", Val::str (strf ("text %d\n\"quoted\" [x] = # \\ ", i))), CEl::section ("s", { CEl::kv ("f", Val::fl (i + 0.25)) }) };
    if (big) for (int k = 0; k < 6; k++) c.kids.push_back (CEl::kv ("t", Val::str (std::string (2500, 'a' + k)))); return c;
}
static const Id IDS[] = { Id (0, "a"), Id (0, "b"), Id (0, "d/a"), Id (1, "a"), Id (1, "b"), Id (2, "a") };
static void init (const char *s)
{
    arc::init (s); Mold M; M.kids = { MEl::kv ("k", Val::in (1)), MEl::kv ("t", Val::str ("")).with (Res::min (0)).with (Res::max (20)), MEl::section ("s", { MEl::kv ("f", Val::fl (0.5)) }).with (Res::min (0)), MEl::kv ("late", Val::in (3), Ver (1, 2)) };
    Steps S; disir_mold *mp = NULL; if (build_mold (M, &mp, &S)) abort ();
    // d/a is covered by a namespace mold
    for (auto &i : IDS) arc::put_mold (i.second == "d/a" ? Id (i.first, "d/__namespace") : i, M); arc::put_mold (Id (2, "nothing"), M);
    for (int k = 0; k < 2; k++)
    {
        arc::clear_side (0); int n = 0;
        for (auto &i : IDS) { Cfg c = cfg (n + 10 * k, n == 1 ? Ver (1, 1) : n == 2 ? Ver (1, 2) : Ver (1, 0), n == 3); if (n == 2) c.kids.push_back (CEl::kv ("late", Val::in (77 + k))); disir_config *p = NULL; if (build_config (c, mp, &p, &S) || disir_config_write (arc::in[0], arc::GROUPS[i.first].name, i.second.c_str (), p)) { fprintf (stderr, "setup %d: %s\n", n, disir_error (arc::in[0])); for (auto &l : S.log) fprintf (stderr, "%s\n", l.c_str ()); abort (); } disir_config_finished (&p); n++; }
        (k ? differs : source) = arc::content (0);
    }
    arc::clear_side (0); for (auto &x : source) arc::store (0, x.first, x.second); disir_mold_finished (&mp);
}
static const char *VER[] = { "1.0", "1.1", "1.2", "1.0", "1.0", "1.0" };
struct Op { int kind, g; const char *e; }; enum { ENTRY, GROUP };
static const Op OPS[] = { { ENTRY, 0, "a" }, { ENTRY, 0, "b" }, { ENTRY, 0, "d/a" }, { ENTRY, 1, "a" }, { ENTRY, 1, "b" }, { ENTRY, 2, "a" }, { GROUP, 0, NULL }, { GROUP, 1, NULL }, { GROUP, 2, NULL }, { ENTRY, 0, "none" }, { ENTRY, 2, "nothing" }, { ENTRY, -1, "a" }, { GROUP, -1, NULL } };
enum { NOPS = sizeof OPS / sizeof *OPS };
static std::string show (const Op &o) { const char *g = o.g < 0 ? "unknown" : arc::GROUPS[o.g].name; return o.kind == GROUP ? strf ("append group %s", g) : strf ("append %s:%s", g, o.e); }
static const char *NAMES[] = { "ar.disir", "ar", "dotted.name", "deep/ar" };
static enum disir_status apply (const Op &o, disir_archive *ar) { const char *g = o.g < 0 ? "unknown" : arc::GROUPS[o.g].name; return o.kind == GROUP ? disir_archive_append_group (arc::in[0], ar, g) : disir_archive_append_entry (arc::in[0], ar, g, o.e); }
typedef std::set<Id> Set;
// what the call should answer and the archive's content after it
static std::string expected (const Op &o, Set &a)
{
    if (o.kind == ENTRY) { Id i (o.g, o.e); if (a.count (i)) return "EXISTS"; if (o.g < 0 || !source.count (i)) return "error"; a.insert (i); return "OK"; }
    for (auto &i : a) if (i.first == o.g) return "EXISTS"; if (o.g < 0) return "error"; for (auto &x : source) if (x.first.first == o.g) a.insert (x.first); return "OK";
}
static std::string show (const Set &a) { std::string r; for (auto &i : a) r += arc::show (i) + " "; return r; }
static void check_archive (Ctx &c, const std::string &file, const Set &a, bool differing)
{
    arc::clear_side (1); arc::Content want; if (differing) { want = differs; for (auto &x : differs) arc::store (1, x.first, x.second); } for (auto &i : a) want[i] = source[i];
    std::map<Id, std::string> v; std::string e = arc::import_all (arc::in[1], file, v); MC_CHECK (c, e.empty (), "import", "archive of { %s}: %s", show (a).c_str (), e.c_str ());
    Set got; for (auto &x : v) got.insert (x.first); MC_CHECK (c, got == a, "entries", "the archive lists { %s}, it should hold { %s}", show (got).c_str (), show (a).c_str ());
    for (auto &x : v) for (int k = 0; k < 6; k++) if (x.first == IDS[k]) MC_CHECK (c, x.second == VER[k], "version", "%s is listed with version %s", arc::show (x.first).c_str (), x.second.c_str ());
    std::string d = arc::diff (want, arc::content (1)); MC_CHECK (c, d.empty (), "content", "after importing { %s}: %s", show (a).c_str (), d.c_str ());
}
// begin, appends and finalize; false when the archive holds nothing and finalizing is refused
static bool run (Ctx &c, const char *existing, const std::string &name, const std::vector<Op> &ops, Set &a, bool first)
{
    disir_archive *ar = NULL; disir_error_clear (arc::in[0]); enum disir_status s = disir_archive_export_begin (arc::in[0], existing, &ar); MC_CHECK (c, s == DISIR_STATUS_OK && ar, "begin", "export begin (%s): %s (%s)", existing ? "existing" : "new", st (s), disir_error (arc::in[0]));
    for (auto &o : ops)
    {
        std::string e = expected (o, a); s = apply (o, ar); if (first) c.transition (show (a), show (o));
        bool ok = e == "error" ? s != DISIR_STATUS_OK && s != DISIR_STATUS_EXISTS : e == "OK" ? s == DISIR_STATUS_OK : s == DISIR_STATUS_EXISTS;
        MC_CHECK (c, ok, "append", "%s: %s (%s), expected %s", show (o).c_str (), st (s), disir_error (arc::in[0]) ? disir_error (arc::in[0]) : "-", e.c_str ()); if (first) c.outcome (strf ("%s: %s", o.kind == GROUP ? "append group" : "append entry", st (s)));
    }
    s = disir_archive_finalize (arc::in[0], name.c_str (), &ar); MC_CHECK (c, !ar, "finalize", "the finished archive is not taken over (%s)", st (s)); if (first) c.outcome (strf ("finalize: %s", st (s)));
    if (a.empty ()) { MC_CHECK (c, s == DISIR_STATUS_NO_CAN_DO, "finalize-empty", "finalizing an empty archive: %s", st (s)); disir_error_clear (arc::in[0]); return false; }
    MC_CHECK (c, s == DISIR_STATUS_OK, "finalize", "finalize: %s (%s)", st (s), disir_error (arc::in[0]) ? disir_error (arc::in[0]) : "-"); disir_error_clear (arc::in[0]); return true;
}
static std::string suffixed (const std::string &n) { return n.size () > 6 && n.substr (n.size () - 6) == ".disir" ? n : n + ".disir"; }
static bool dirty; // other entries are stored
static void clean () { if (dirty) { arc::clear_side (0); for (auto &x : source) arc::store (0, x.first, x.second); dirty = false; } fs::clear (arc::tmp); fs::clear (arc::home); fs::mkdirs (arc::home + "/deep"); }
static void after (Ctx &c, const std::set<std::string> &files)
{
    MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ()); std::set<std::string> got; for (auto &f : fs::snap (arc::home)) if (f.second != "/") got.insert (f.first);
    std::string w, g; for (auto &x : files) w += x + " "; for (auto &x : got) g += x + " "; MC_CHECK (c, got == files, "files", "the archive directory has { %s}, expected { %s}", g.c_str (), w.c_str ());
    std::string d = arc::diff (source, arc::content (0)); MC_CHECK (c, d.empty (), "source", "the exported configs changed: %s", d.c_str ());
}
static bool off (Ctx &c) { if (arc::ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
static void fresh (Ctx &c)
{
    if (off (c)) return; clean (); std::vector<Op> ops; int depth = c.thorough () ? 4 : 3, nm = c.choose (4), last = 0; for (; last < depth; last++) { int k = c.choose (NOPS + (last ? 1 : 0)); if (k == NOPS) break; ops.push_back (OPS[k]); } bool differing = ops.size () % 2;
    if (ops.size () == (size_t) depth && nm) c.prune (); // the name does not interact with the longest sequences
    std::string t; for (auto &o : ops) t += show (o) + "; "; std::string name = arc::home + "/" + NAMES[nm]; c.note ("new archive %s: %s\n", NAMES[nm], t.c_str ()); c.risk ("crash");
    Set a; bool stored = run (c, NULL, name, ops, a, true); std::set<std::string> files; if (stored) files.insert (suffixed (NAMES[nm])); after (c, files);
    if (stored) check_archive (c, suffixed (name), a, differing);
    MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay after the import: %s", arc::left ().c_str ());
    c.state (show (a)); c.nontrivial (show (a)); c.validated ();
}
static void extend (Ctx &c)
{
    if (off (c)) return; clean (); static const int first[][3] = { { 2, 4, -1 }, { 5, 7, -1 }, { 6, 7, 8 }, { 0, -1, -1 }, { 6, -1, -1 } };
    std::vector<Op> o1, o2; int f = c.choose (c.thorough () ? 5 : 3); for (int k : first[f]) if (k >= 0) o1.push_back (OPS[k]); int where = c.choose (3); for (int d = 0; d < (c.thorough () ? 3 : 2); d++) { int k = c.choose (NOPS + 1); if (k == NOPS) break; o2.push_back (OPS[k]); } bool differing = (f + o2.size ()) % 2;
    std::string t; for (auto &o : o1) t += show (o) + "; "; t += "stored, then "; for (auto &o : o2) t += show (o) + "; "; c.note ("existing archive %sfinalized to %s\n", t.c_str (), where == 0 ? "the same path" : where == 1 ? "the same path without suffix" : "another path"); c.risk ("crash");
    Set a; std::string file = arc::home + "/ar.disir"; run (c, NULL, file, o1, a, false); Set before = a;
    std::string to = where == 0 ? "ar.disir" : where == 1 ? "ar" : "deep/new.disir"; run (c, file.c_str (), arc::home + "/" + to, o2, a, true);
    // the existing archive moves to the new place
    after (c, { suffixed (to) }); check_archive (c, suffixed (arc::home + "/" + to), a, differing); MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay after the import: %s", arc::left ().c_str ());
    c.state (show (before) + "+ " + show (a)); c.nontrivial (show (a)); c.validated ();
}
// entries whose names are special to the archive or to its index, alone and together; new, as a group and by extending
static void names (Ctx &c)
{
    if (off (c)) return; clean (); static const char *N[] = { "d", "d/b", "d/b/c", "d//c", "_", "__namespace", "entries_toml", "1", "true", "10", "metadata", "json", "g", "d/metadata", "x/g/d", "/e", "e/", "entries.toml", "a b", "l1", "l2", "l3" }; enum { NN = sizeof N / sizeof *N };
    auto name = [&] (int k) -> std::string { std::string s = N[k]; return s == "l1" ? std::string (101, 'l') : s == "l2" ? std::string (160, 'p') + "/" + std::string (101, 'l') : s == "l3" ? std::string (220, 'm') : s; };
    int g = c.choose (2), i = c.choose (NN), j = c.choose (NN + 1), how = c.choose (3); if (j < NN && j <= i && how != 1) c.prune (); if (i == j) c.prune (); if (j == NN && how) c.prune ();
    std::vector<std::string> ids = { name (i) }; if (j < NN) ids.push_back (name (j)); std::string t; for (auto &x : ids) t += quote (x) + " "; static const char *HOW[] = { "appended", "appended, extended with the second", "appended as a group" }; c.note ("%s: %s%s\n", arc::GROUPS[g].name, t.c_str (), HOW[how]); c.risk ("crash");
    static disir_mold *mp[1]; static Mold M; if (!mp[0]) { Steps S; M.kids = { MEl::kv ("k", Val::in (1)) }; if (build_mold (M, &mp[0], &S)) c.fail ("mold", "mold"); } dirty = true; arc::clear_side (0); arc::Content have; std::vector<Id> made;
    for (size_t k = 0; k < ids.size (); k++)
    {
        Id id (g, ids[k]); std::string mold = arc::molds[g] + "/" + ids[k] + ".json"; if (!ids[k].empty ()) { fs::mkdirs (mold.substr (0, mold.rfind ('/'))); fs::put (mold, fs::mold_text (M)); } Cfg x; x.v = Ver (1, 0); x.kids = { CEl::kv ("k", Val::in (50 + k)) }; Steps S; disir_config *p = NULL; if (build_config (x, mp[0], &p, &S)) c.fail ("config", "config");
        enum disir_status s = disir_config_write (arc::in[0], arc::GROUPS[g].name, ids[k].c_str (), p); disir_config_finished (&p); disir_error_clear (arc::in[0]); if (s == DISIR_STATUS_OK) made.push_back (id); else { c.state (t + "not storable"); return; }
    }
    have = arc::content (0); MC_CHECK (c, have.size () == made.size (), "stored", "%zu entries are stored", have.size ()); std::string file = arc::home + "/n.disir"; disir_archive *ar = NULL; enum disir_status s = disir_archive_export_begin (arc::in[0], NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "%s", st (s));
    auto append = [&] (size_t k) { s = disir_archive_append_entry (arc::in[0], ar, arc::GROUPS[g].name, ids[k].c_str ()); MC_CHECK (c, s == DISIR_STATUS_OK, "append", "appending %s: %s (%s)", quote (ids[k]).c_str (), st (s), disir_error (arc::in[0])); };
    auto finish = [&] { s = disir_archive_finalize (arc::in[0], file.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "finalize", "%s (%s)", st (s), disir_error (arc::in[0])); };
    if (how == 2) { s = disir_archive_append_group (arc::in[0], ar, arc::GROUPS[g].name); MC_CHECK (c, s == DISIR_STATUS_OK, "append", "appending the group: %s (%s)", st (s), disir_error (arc::in[0])); finish (); } else if (how == 0) { for (size_t k = 0; k < ids.size (); k++) append (k); finish (); }
    else { append (0); finish (); s = disir_archive_export_begin (arc::in[0], file.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "extending: %s (%s)", st (s), disir_error (arc::in[0])); append (1); finish (); }
    for (int again = 0; again < 2; again++)
    {
        arc::clear_side (1); std::map<Id, std::string> v; std::string e = arc::import_all (arc::in[1], file, v); MC_CHECK (c, e.empty (), "import", "%s", e.c_str ()); std::string d = arc::diff (have, arc::content (1)); MC_CHECK (c, d.empty (), "content", "after importing%s: %s", again ? " the extended archive" : "", d.c_str ()); MC_CHECK (c, v.size () == made.size (), "entries", "the archive lists %zu entries", v.size ());
        if (!again) { s = disir_archive_export_begin (arc::in[0], file.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "extending: %s (%s)", st (s), disir_error (arc::in[0])); finish (); }
    }
    MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ()); c.state (t + HOW[how]); c.nontrivial (t + HOW[how]); c.validated ();
}
// the same archive under different spellings of its path: written, extended in place and moved; paths of any length
static void spellings (Ctx &c)
{
    if (off (c)) return; static std::string ln; if (ln.empty ()) { ln = arc::base + "/ln"; symlink (arc::home.c_str (), ln.c_str ()); }
    // (directory, name): what the path means is the place in home
    struct Form { const char *shown, *path; }; static const Form F[] = { { "home/ar.disir", "H/ar.disir" }, { "home//ar.disir", "H//ar.disir" }, { "home/./ar.disir", "H/./ar.disir" }, { "home/deep/../ar.disir", "H/deep/../ar.disir" }, { "link to home/ar.disir", "L/ar.disir" }, { "home/sl.disir, a symbolic link to ar.disir", "H/sl.disir" }, { "home/hl.disir, a hard link of ar.disir", "H/hl.disir" },
        { "home/ar", "H/ar" }, { "home//ar", "H//ar" }, { "link to home/ar", "L/ar" }, { "home/deep/ar", "H/deep/ar" }, { "home/deep.dir/ar", "H/deep.dir/ar" }, { "home/.disir", "H/.disir" }, { "home/x.disir.disir", "H/x.disir.disir" }, { "home/x.disirs", "H/x.disirs" }, { "home/isdir", "H/isdir" }, { "home/deep/", "H/deep/" }, { "nowhere/ar", "H/nowhere/ar" }, { "nothing", "" } };
    enum { NF = sizeof F / sizeof *F, NSRC = 7, NLONG = 16 }; static const int LEN[NLONG] = { 255, 256, 1023, 1024, 4070, 4080, 4084, 4085, 4086, 4088, 4089, 4090, 4094, 4095, 4096, 5000 };
    int src = c.choose (NSRC + 1) - 1, to = c.choose (NF + NLONG), links = src == 5 || to == 5 ? 1 : src == 6 || to == 6 ? 2 : 0; if ((src == 5 && to == 6) || (src == 6 && to == 5)) links = 3; bool append = src < 0 || c.choose (2); c.risk ("crash"); clean (); fs::mkdirs (arc::home + "/deep.dir"); fs::mkdirs (arc::home + "/isdir.disir");
    auto full = [&] (const std::string &f) -> std::string { return f.empty () ? f : f[0] == 'H' ? arc::home + f.substr (1) : ln + f.substr (1); };
    std::string dest, shown; if (to < NF) { dest = full (F[to].path); shown = F[to].shown; } else { int n = LEN[to - NF]; dest = arc::home + "/"; while ((int) dest.size () + 2 < n) dest += (dest.size () % 2 ? "./" : "/"); while ((int) dest.size () + 2 < n) dest += "/"; dest += "ar"; shown = strf ("home/ar padded to %zu bytes", dest.size ()); }
    std::string from = src < 0 ? "" : full (F[src].path); c.note ("%s, %s finalized to %s\n", src < 0 ? "a new archive" : strf ("%s extended", F[src].shown).c_str (), append ? "b appended," : "nothing appended,", shown.c_str ());
    Set a; std::string ar0 = arc::home + "/ar.disir"; bool exists = src >= 0 || links; if (exists) { run (c, NULL, ar0, { OPS[0], OPS[3] }, a, false); if (links & 1) symlink ("ar.disir", (arc::home + "/sl.disir").c_str ()); if (links & 2) link (ar0.c_str (), (arc::home + "/hl.disir").c_str ()); }
    if (src < 0) a.clear (); fs::Snap was = fs::snap (arc::home); auto place = [&] (const std::string &p) -> std::string { size_t k = p.rfind ('/'); char b[PATH_MAX]; if (k == std::string::npos || !realpath (p.substr (0, k).c_str (), b)) return ""; std::string r = std::string (b) + p.substr (k); return r.substr (arc::home.size () + 1); };
    // where it must end up, and what the existing path then stands for
    std::string d, s0 = src < 0 ? "" : place (from); bool nodir = to < NF && (!*F[to].path || dest.back () == '/' || strstr (F[to].path, "nowhere")), isdir = to < NF && strstr (F[to].path, "isdir"); if (to >= NF) d = "ar.disir"; else if (!nodir && !isdir) d = place (suffixed (dest));
    disir_archive *ar = NULL; enum disir_status s = disir_archive_export_begin (arc::in[0], src < 0 ? NULL : from.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK && ar, "begin", "export begin: %s (%s)", st (s), disir_error (arc::in[0]));
    if (append) { Op o = OPS[1]; std::string e = expected (o, a); s = apply (o, ar); MC_CHECK (c, st (s) == e, "append", "%s: %s", show (o).c_str (), st (s)); } disir_error_clear (arc::in[0]);
    s = disir_archive_finalize (arc::in[0], dest.c_str (), &ar); c.outcome (strf ("finalize: %s", st (s))); c.transition (strf ("%d", src), shown); fs::Snap now = fs::snap (arc::home);
    bool long_path = to >= NF && dest.size () > 4060; MC_CHECK (c, s == DISIR_STATUS_OK ? !nodir && !isdir : nodir || isdir || long_path, "finalize", "finalizing to %s: %s (%s)", shown.c_str (), st (s), disir_error (arc::in[0]) ? disir_error (arc::in[0]) : "-"); disir_error_clear (arc::in[0]);
    if (s == DISIR_STATUS_OK)
    {
        MC_CHECK (c, !ar, "finalize", "the finished archive is not taken over"); std::set<std::string> want; for (auto &f : was) if (f.second != "/") want.insert (f.first); want.insert (d); if (src >= 0 && s0 != d && !(src == 5 && d == "ar.disir")) want.erase (s0);
        after (c, want); check_archive (c, arc::home + "/" + d, a, false);
    }
    else
    {
        if (ar) { s = disir_archive_finalize (arc::in[0], NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK && !ar, "discard", "discarding: %s", st (s)); } disir_error_clear (arc::in[0]); std::string x = fs::diff (was, fs::snap (arc::home)); MC_CHECK (c, x.empty (), "files", "the refused archive: %s", x.c_str ());
        MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ());
    }
    c.state (F[src < 0 ? 0 : src].shown + shown); c.nontrivial (shown); c.validated ();
}
// groups and plugins whose names mean something to the archive or its index: exported, extended and imported
static void groups (Ctx &c)
{
    if (off (c)) return; static const char *G[] = { "g", "metadata.toml", "entries.toml", "a/entries.toml", "metadata", "a.b", "JSON", "1", "true", "a b", "\"q\"", "a#b", "%s", "[g]", "\xc3\xbc", "l1" }; enum { N = sizeof G / sizeof *G }; static const char *P[] = { "JSON", "metadata.toml", "entries.toml", "a/b", "x.y", "a b", "JSON/g" };
    int i = c.choose (N), j = c.choose (N), pl = c.choose (7), second = c.choose (3), kind = c.choose (2); if (i == j) c.prune (); if (pl && second) c.prune (); std::string name[2] = { G[i], G[j] }; for (auto &n : name) if (n == "l1") n = std::string (150, 'l'); std::string t = strf ("groups %s and %s of plugin%s %s%s, %s", quote (name[0]).c_str (), quote (name[1]).c_str (), second ? "s" : "", quote (P[pl]).c_str (), second ? strf (" and %s", quote (P[second == 1 ? 6 : 4]).c_str ()).c_str () : "", kind ? "the second by extending" : "in one"); c.note ("%s\n", t.c_str ()); c.risk ("crash");
    clean (); static Mold M; static disir_mold *mp; static std::string dirs[2][2], md; if (!mp) { Steps S; M.kids = { MEl::kv ("k", Val::in (1)) }; if (build_mold (M, &mp, &S)) c.fail ("mold", "mold"); md = arc::base + "/gm"; fs::mkdirs (md); fs::put (md + "/a.json", fs::mold_text (M)); for (int s = 0; s < 2; s++) for (int k = 0; k < 2; k++) { dirs[s][k] = arc::base + strf ("/gd%d%d", s, k); fs::mkdirs (dirs[s][k]); } }
    std::string file = arc::home + "/n.disir", text[2], what; disir_instance *in[2]; bool reg = true;
    for (int s = 0; s < 2; s++) { in[s] = fs::empty (); for (int k = 0; k < 2; k++) { fs::clear (dirs[s][k]); disir_register_plugin p = fs::plugin (false, dirs[s][k], md); std::string pn = k && second ? P[second == 1 ? 6 : 4] : P[pl]; p.dp_name = (char *) pn.c_str (); if (disir_plugin_register (in[s], &p, "json", name[k].c_str ())) reg = false; } }
    auto done = [&] { for (auto x : in) disir_instance_destroy (&x); MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ()); }; if (!reg) { c.state (t + "refused"); done (); return; }
    for (int k = 0; k < 2; k++) { Cfg x; x.v = Ver (1, 0); x.kids = { CEl::kv ("k", Val::in (50 + k)) }; Steps S; disir_config *p = NULL; if (build_config (x, mp, &p, &S)) c.fail ("config", "config"); enum disir_status s = disir_config_write (in[0], name[k].c_str (), "a", p); MC_CHECK (c, s == DISIR_STATUS_OK, "write", "storing in group %s: %s (%s)", quote (name[k]).c_str (), st (s), disir_error (in[0])); disir_config_finished (&p); fs::get (dirs[0][k] + "/a.json", text[k]); }
    disir_archive *ar = NULL; enum disir_status s;
    for (int k = 0; k < 2; k++)
    {
        if (!k || kind) { s = disir_archive_export_begin (in[0], k ? file.c_str () : NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "%s: %s", st (s), disir_error (in[0])); }
        s = disir_archive_append_entry (in[0], ar, name[k].c_str (), "a"); MC_CHECK (c, s == DISIR_STATUS_OK, "append", "%s: %s (%s)", quote (name[k]).c_str (), st (s), disir_error (in[0]));
        if (k || kind) { s = disir_archive_finalize (in[0], file.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK && !ar, "finalize", "%s (%s)", st (s), disir_error (in[0])); }
    }
    disir_import *imp = NULL; int n = -1; s = disir_archive_import (in[1], file.c_str (), &imp, &n); MC_CHECK (c, s == DISIR_STATUS_OK && n == 2, "import", "importing: %s, %d entries (%s)", st (s), n, disir_error (in[1]) ? disir_error (in[1]) : "-");
    for (int k = 0; k < n; k++) { const char *e, *g, *v, *info; e = g = v = info = NULL; disir_import_entry_status (imp, k, &e, &g, &v, &info); MC_CHECK (c, e && g && (g == name[0] || g == name[1]), "entries", "entry %d is %s of %s", k, e ? e : "-", g ? g : "-"); s = disir_import_resolve_entry (imp, k, DISIR_IMPORT_FORCE); MC_CHECK (c, s == DISIR_STATUS_OK, "import", "forcing %s of %s: %s (%s)", e, quote (g).c_str (), st (s), info ? info : "-"); }
    s = disir_import_finalize (in[1], DISIR_IMPORT_DO, &imp, NULL); MC_CHECK (c, s == DISIR_STATUS_OK, "import", "finalizing the import: %s", st (s));
    for (int k = 0; k < 2; k++) { std::string got; fs::get (dirs[1][k] + "/a.json", got); MC_CHECK (c, got == text[k], "content", "the entry of group %s is %s", quote (name[k]).c_str (), quote (got).c_str ()); }
    done (); c.state (t); c.nontrivial (t); c.validated ();
}
// discarding an export, and how much an export and import keep
static void held (Ctx &c)
{
    if (off (c)) return; int scen = c.choose (4), k = c.choose (NOPS), l = c.choose (NOPS + 1); std::vector<Op> ops = { OPS[k] }; if (l < NOPS) ops.push_back (OPS[l]); std::string t; for (auto &o : ops) t += show (o) + "; ";
    static const char *SC[] = { "export and import", "discarded export", "extend", "discarded extension" }; c.note ("%s: %s\n", SC[scen], t.c_str ()); c.risk ("crash"); std::string file = arc::home + "/ar.disir"; size_t h[4]; int fd[4]; clean (); std::string keep; arc::Content none;
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); fd[i] = arc::open_files ();
        {
            Set a; disir_archive *ar = NULL; clean ();
            if (scen >= 2) run (c, NULL, file, { OPS[4], OPS[0] }, a, false);
            std::string was; fs::get (file, was);
            if (scen == 0 || scen == 2) { if (run (c, scen ? file.c_str () : NULL, file, ops, a, false)) { arc::clear_side (1); std::map<Id, std::string> v; std::string e = arc::import_all (arc::in[1], file, v); MC_CHECK (c, e.empty (), "import", "%s", e.c_str ()); } }
            else
            {
                enum disir_status s = disir_archive_export_begin (arc::in[0], scen == 3 ? file.c_str () : NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "%s", st (s)); for (auto &o : ops) apply (o, ar);
                s = disir_archive_finalize (arc::in[0], NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK && !ar, "discard", "discarding: %s", st (s)); std::string now; fs::get (file, now); MC_CHECK (c, now == was, "discard", "discarding changes the existing archive");
            }
            disir_error_clear (arc::in[0]); disir_error_clear (arc::in[1]); MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ());
        }
        h[i + 1] = heap (); fd[i + 1] = arc::open_files ();
    }
    MC_CHECK (c, h[3] == h[2] || h[2] == h[1], "leak", "repeating it keeps %zd bytes", (ssize_t) (h[3] - h[2])); MC_CHECK (c, fd[3] == fd[2], "fd-leak", "repeating it keeps %d open files", fd[3] - fd[2]); c.state (t + SC[scen]); c.nontrivial (t + SC[scen]); c.validated ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C23", "model_checking",
        "Every sequence of up to three (thorough: four) appends of entries, groups and unknown names over three groups with six configs, into new archives under several names and into existing ones, imported into an empty or a differing system; the archive must hold exactly the appended set, and repeating it must keep no memory, file or open descriptor; and one and two entries out of twenty-two names that mean something to archive, index, file system or format strings, appended, as a group and by extending; and seven spellings of an existing archive's path (extra slashes and dots, through directories, symbolic and hard links) extended to thirty-five destinations, among them the same spellings, directories, nothing and paths of 255 to 5000 bytes, which must keep exactly one complete archive or, when refused, everything as it was; and pairs of sixteen group names and of seven plugin names that mean something to archive or index.",
        { "the temporary files of the archive code are redirected from /tmp to a private directory at the system call", "a relative archive path without a directory is refused by the library", "a group has a name that is not empty" }, init, NULL };
    return mc::main (argc, argv, i, { { "fresh", 2, fresh, false, 20 }, { "extend", 2, extend, false, 20 }, { "held", 2, held, false, 20 }, { "names", 3, names, false, 20 }, { "spellings", 2, spellings, false, 20 }, { "groups", 2, groups, false, 20 } });
}
