// C31: damaged and crafted archives are refused cleanly and reach nothing else
// technique: exhaustive enumeration of damaged archives (every structural edit of metadata and index, every missing, repeated or reordered item, every truncation, byte edits, hostile items and names) imported and extended by the real code, against a reference reading of the archive
#include "arc.h"
#include "tar.h"
#include <disir/version.h>
using namespace mc; using namespace mm; using arc::Id; using tar::Item;
extern "C" int mc_log_to_null;
static const Id IDS[] = { Id (0, "a"), Id (0, "d/b"), Id (1, "a") }; enum { NI = 3 };
static arc::Content good; static std::string secret, outside, packed;
static Mold M;
static Cfg cfg (int k) { Cfg c; c.v = Ver (1, 0); c.kids = { CEl::kv ("k", Val::in (100 + k)), CEl::kv ("t", Val::str (strf ("text %d", k))) }; return c; }
static void must (bool b, const char *what) { if (!b) { fprintf (stderr, "C31: %s\n", what); abort (); } }
static void init (const char *s)
{
    arc::init (s); outside = arc::base + "/outside"; M.kids = { MEl::kv ("k", Val::in (1)), MEl::kv ("t", Val::str ("")) }; Steps S; disir_mold *m = NULL; must (!build_mold (M, &m, &S), "mold");
    for (int i = 0; i < NI; i++) { arc::put_mold (IDS[i], M); Cfg c = cfg (i); disir_config *p = NULL; must (!build_config (c, m, &p, &S), "config"); must (!disir_config_write (arc::in[0], arc::GROUPS[IDS[i].first].name, IDS[i].second.c_str (), p), "write"); disir_config_finished (&p); }
    { Cfg c = cfg (77); disir_config *p = NULL; must (!build_config (c, m, &p, &S), "config"); must (!disir_config_write (arc::in[0], "g", "a", p), "write"); secret = arc::content (0)[Id (0, "a")]; c = cfg (0); disir_config_finished (&p); must (!build_config (c, m, &p, &S), "config"); must (!disir_config_write (arc::in[0], "g", "a", p), "write"); disir_config_finished (&p); }
    disir_mold_finished (&m); good = arc::content (0); must (good.size () == NI, "content"); if (!arc::ready) return;
    // the archive the library makes of them
    disir_archive *ar = NULL; must (!disir_archive_export_begin (arc::in[0], NULL, &ar), "begin"); must (!disir_archive_append_group (arc::in[0], ar, "g") && !disir_archive_append_group (arc::in[0], ar, "h"), "append"); std::string f = arc::home + "/lib.disir"; must (!disir_archive_finalize (arc::in[0], f.c_str (), &ar), "finalize"); must (fs::get (f, packed), "read");
}
static bool off (Ctx &c) { if (arc::ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
// ---- one archive, imported and extended --------------------------------------------------------------------
enum Want { REFUSE, ACCEPT, EITHER };
static const char *WN[] = { "refused", "accepted", "either" };
static std::string world () { std::string r; for (auto &f : fs::snap (outside)) r += f.first + "=" + f.second + "\n"; return r; }
// What is presented must be what is archived; "may" are further entries that may be presented, but not imported.
static void one (Ctx &c, const std::string &bytes, Want want, bool extras = false, const arc::Content *content = NULL)
{
    static const arc::Content none; const arc::Content &is = content ? *content : good; c.risk ("crash"); bool extend = c.choose (2); c.note ("%s, expected %s\n", extend ? "extended" : "imported", WN[want]); size_t h = 0; int fds = 0;
    for (int round = 0; round < 4; round++)
    {
        h = heap (); fds = arc::open_files ();
        {
        arc::clear_side (1); fs::clear (arc::tmp); fs::clear (arc::home); fs::mkdirs (arc::home); fs::clear (outside); fs::mkdirs (outside + "/dir"); fs::put (outside + "/secret", secret); fs::put (outside + "/dir/kept", "kept\n"); std::string before = world (), file = arc::home + "/in.disir"; fs::put (file, bytes); bool ok; sys::begin ();
        auto bystanders = [&] (const char *when) {
            sys::end (); if (sys::overflow) c.fail ("overflow", "too many system calls"); for (int i = 0; i < sys::nrec; i++) if (sys::rec[i].escaped) c.fail ("escape", "%s: %s", when, sys::show (sys::rec[i]).c_str ());
            std::string now = world (); MC_CHECK (c, now == before, "outside", "%s changes what is outside:\n%s\nbefore:\n%s", when, now.c_str (), before.c_str ()); std::string l = arc::left (); MC_CHECK (c, l.empty (), "temporary-files", "%s leaves %s", when, l.c_str ());
            std::string t; fs::get (file, t); MC_CHECK (c, t == bytes || (extend && strcmp (when, "extending")), "archive", "%s changes the archive", when); sys::begin (); };
        if (!extend)
        {
            disir_import *imp = NULL; int n = -1; enum disir_status s = disir_archive_import (arc::in[1], file.c_str (), &imp, &n); ok = s == DISIR_STATUS_OK; c.outcome (st (s)); bystanders ("importing"); MC_CHECK (c, ok == (imp != NULL), "import", "%s, but %s import is handed out", st (s), imp ? "an" : "no");
            MC_CHECK (c, !ok || n >= 0, "entries", "%d entries", n); arc::Content expect;
            for (int k = 0; ok && k < n; k++)
            {
                const char *e = NULL, *g = NULL, *v = NULL, *info = NULL; s = disir_import_entry_status (imp, k, &e, &g, &v, &info); MC_CHECK (c, e && g && v, "entry", "entry %d: %s", k, st (s)); Id id (-1, e); for (int x = 0; x < arc::NG; x++) if (!strcmp (g, arc::GROUPS[x].name)) id.first = x;
                bool known = is.count (id); bool r = disir_import_resolve_entry (imp, k, DISIR_IMPORT_FORCE) == DISIR_STATUS_OK; if (r != (s == DISIR_STATUS_OK)) c.fail ("verdict", "%s:%s is %s, but forcing it is %s", g, e, st (s), r ? "accepted" : "refused");
                MC_CHECK (c, !r || known, "extra", "%s:%s (%s) is presented as importable", g, e, st (s)); MC_CHECK (c, known || extras, "extra", "%s:%s is presented", g, e); if (r) expect[id] = is.at (id); if (known && want == ACCEPT) MC_CHECK (c, r, "verdict", "%s:%s cannot be imported: %s (%s)", g, e, st (s), info ? info : "-");
            }
            if (ok) { s = disir_import_finalize (arc::in[1], DISIR_IMPORT_DO, &imp, NULL); MC_CHECK (c, s == DISIR_STATUS_OK && !imp, "finalize", "finalizing: %s (%s)", st (s), disir_error (arc::in[1])); bystanders ("finalizing"); if (want == ACCEPT) MC_CHECK (c, expect.size () == is.size (), "incomplete", "%zu of %zu entries are presented", expect.size (), is.size ()); }
            std::string d = arc::diff (expect, arc::content (1)); MC_CHECK (c, d.empty (), "content", "the system after the import: %s", d.c_str ());
        }
        else
        {
            disir_archive *ar = NULL; enum disir_status s = disir_archive_export_begin (arc::in[1], file.c_str (), &ar); ok = s == DISIR_STATUS_OK; c.outcome (st (s)); MC_CHECK (c, ok == (ar != NULL), "export", "%s, but %s archive is handed out", st (s), ar ? "an" : "no");
            if (ok)
            {
                std::string to = arc::home + "/out.disir"; s = disir_archive_finalize (arc::in[1], to.c_str (), &ar); MC_CHECK (c, s == DISIR_STATUS_OK || s == DISIR_STATUS_NO_CAN_DO, "finalize", "finalizing: %s", st (s)); if (ar) c.fail ("finalize", "the archive is not taken"); bystanders ("finalizing"); bool made = s == DISIR_STATUS_OK; MC_CHECK (c, made || want != ACCEPT, "finalize", "finalizing: %s", st (s));
                if (made) { std::map<Id, std::string> v; std::string e = arc::import_all (arc::in[1], to, v); if (!extras) MC_CHECK (c, e.empty (), "extended", "the extended archive: %s", e.c_str ()); if (e.empty ()) { arc::Content want_; for (auto &x : v) { MC_CHECK (c, is.count (x.first), "extra", "%s", x.second.c_str ()); want_[x.first] = is.at (x.first); } std::string d = arc::diff (want_, arc::content (1)); MC_CHECK (c, d.empty (), "content", "the system after importing the extended archive: %s", d.c_str ()); MC_CHECK (c, want != ACCEPT || v.size () == is.size (), "incomplete", "the extended archive has %zu entries", v.size ()); } bystanders ("importing it"); }
            }
            else bystanders ("extending");
        }
        sys::end (); MC_CHECK (c, !(ok && want == REFUSE), "accepted", "the archive is accepted"); MC_CHECK (c, ok || want != ACCEPT, "refused", "the archive is refused: %s", disir_error (arc::in[1]) ? disir_error (arc::in[1]) : "-"); disir_error_clear (arc::in[1]);
        }
        MC_CHECK (c, arc::open_files () == fds, "descriptors", "%d descriptors stay open", arc::open_files () - fds); size_t h1 = heap (); if (round && h1 == h) break; MC_CHECK (c, round < 3, "leak", "%zd bytes stay allocated", (ssize_t) (h1 - h));
    }
    c.state (std::to_string (hash (bytes.data (), bytes.size (), extend))); c.nontrivial (std::to_string (hash (bytes.data (), bytes.size (), extend))); c.validated ();
}
// ---- the pieces of an archive ---------------------------------------------------------------------------------
struct Text { std::string t; Want w; }; // a TOML value (or nothing) and what becomes of the archive
static std::string q (const std::string &s) { return "\"" + s + "\""; }
struct Backend { std::string id, groups; };
struct Index { std::vector<std::pair<std::string, std::string>> groups; };
struct Arch { std::string org, impl; std::vector<Backend> backends; std::map<std::string, Index> index; std::vector<Item> files; };
static Arch base ()
{
    Arch a; a.org = "disir_org_version = \"0/1-draft\"\n"; a.impl = strf ("implementation = \"%s\"\n", libdisir_version_string); a.backends = { { "id = \"JSON\"\n", "groups = [\"g\"]\n" }, { "id = \"TOML\"\n", "groups = [\"h\"]\n" } };
    a.index["JSON"].groups = { { "[\"g\"]\n", "\"a\" = \"1.0\"\n\"d/b\" = \"1.0\"\n" } }; a.index["TOML"].groups = { { "[\"h\"]\n", "\"a\" = \"1.0\"\n" } }; for (auto &i : IDS) a.files.push_back (Item (std::string (arc::GROUPS[i.first].toml ? "TOML/" : "JSON/") + arc::GROUPS[i.first].name + "/" + i.second, good[i])); return a;
}
static std::string meta (const Arch &a) { std::string r = a.org + a.impl; for (auto &b : a.backends) r += "[[backend]]\n" + b.id + b.groups; return r; }
static std::string index (const Index &i) { std::string r; for (auto &g : i.groups) r += g.first + g.second; return r; }
static std::vector<Item> items (const Arch &a) { std::vector<Item> r = a.files; r.push_back (Item ("metadata.toml", meta (a))); for (auto &i : a.index) r.push_back (Item (i.first + "/entries.toml", index (i.second))); return r; }
// values of every type, none of them right
static const char *VALUES[] = { "5", "1.5", "true", "\"\"", "\"x\"", "[]", "[5]", "[\"x\"]", "[\"\"]", "[[\"g\"]]", "{}", "2018-01-01T00:00:00Z", "= =", "" }; enum { NV = sizeof VALUES / sizeof *VALUES };
static void metadata (Ctx &c)
{
    if (off (c)) return; Arch a = base (); int k = c.choose (9); Want w = REFUSE; bool extras = false; std::string what;
    auto value = [&] (const char *key, std::string &line) { int v = c.choose (NV + 3); if (v < NV) line = strf ("%s = %s\n", key, VALUES[v]); else if (v == NV) line.clear (); else if (v == NV + 1) line = strf ("[%s]\nx = 1\n", key); else { line += line; w = EITHER; } what = line; };
    switch (k)
    {
    case 0: value ("disir_org_version", a.org); break; case 1: value ("implementation", a.impl); break;
    case 2: { int b = c.choose (2); value ("id", a.backends[b].id); break; }
    case 3: { int b = c.choose (2); value ("groups", a.backends[b].groups); break; }
    case 4: { static const char *G[] = { "[\"g\", 5]", "[5, \"g\"]", "[\"g\", \"x\"]", "[\"g\", \"\"]", "[\"G\"]", "[\"g\", \"g\"]", "[[\"g\"]]", "[\"g\", true]", "[\"../g\"]", "[\"..\"]", "[\".\"]", "[\"g/.\"]" }; int g = c.choose (12); a.backends[0].groups = strf ("groups = %s\n", G[g]); if (g == 5) w = EITHER; what = G[g]; break; }
    case 5: { static const char *B[] = { "json", "NONE", "JSON/", "/JSON", "./JSON", "../JSON", "TOML", "JSON/g" }; int g = c.choose (8); a.backends[0].id = strf ("id = \"%s\"\n", B[g]); what = B[g]; break; }
    case 6: { int v = c.choose (NV); a.backends.clear (); a.impl += strf ("backend = %s\n", VALUES[v]); what = VALUES[v]; if (!strcmp (VALUES[v], "[]")) w = EITHER; if (!strcmp (VALUES[v], "[[\"g\"]]")) w = REFUSE; break; }
    case 7: { int d = c.choose (2); a.backends.erase (a.backends.begin () + d); w = EITHER; what = "backend missing"; break; } // what is not indexed is not presented
    case 8: { int d = c.choose (2); a.backends.push_back (a.backends[d]); w = EITHER; what = "backend twice"; break; }
    }
    if (k == 0 && what.find ("0/1-draft") == std::string::npos) w = REFUSE;
    c.note ("metadata.toml:\n%s", meta (a).c_str ()); one (c, tar::make (items (a)), w, extras);
}
static void indexes (Ctx &c)
{
    if (off (c)) return; Arch a = base (); const char *b = c.choose (2) ? "TOML" : "JSON"; auto &g = a.index[b].groups[0]; int k = c.choose (7); Want w = REFUSE; bool extras = false;
    switch (k)
    {
    case 0: { int v = c.choose (NV); g.first.clear (); g.second = strf ("%s = %s\n", *b == 'J' ? "g" : "h", VALUES[v]); if (!strcmp (VALUES[v], "{}")) w = EITHER; break; }
    case 1: { int v = c.choose (NV); g.second = strf ("\"a\" = %s\n", VALUES[v]); if (VALUES[v][0] == '"') { w = EITHER; } break; }
    case 2: { static const char *E[] = { "\"none\" = \"1.0\"\n", "\"\" = \"1.0\"\n", "\"../g/a\" = \"1.0\"\n", "\"./a\" = \"1.0\"\n", "\"/a\" = \"1.0\"\n", "\"d\" = \"1.0\"\n", "\"d/\" = \"1.0\"\n", "\"..\" = \"1.0\"\n", "\"../../metadata.toml\" = \"1.0\"\n", "\"../entries.toml\" = \"1.0\"\n" }; g.second += E[c.choose (10)]; break; }
    case 3: g.second.clear (); w = EITHER; break; case 4: g.second += g.second; w = EITHER; break;
    case 5: { static const char *H[] = { "[\"x\"]\n", "", "[]\n", "[\"g\"", "[[\"g\"]]\n", "[\"h\"]\n", "[g]\n", "[\"g\".x]\n" }; int v = c.choose (8); g.first = H[v]; if ((v == 5 && *b == 'T') || (v == 6 && *b == 'J')) w = ACCEPT; break; }
    case 6: a.index[b].groups.push_back ({ "[\"other\"]\n", "\"z\" = \"1.0\"\n" }); w = EITHER; break;
    }
    c.note ("%s/entries.toml:\n%s", b, index (a.index[b]).c_str ()); one (c, tar::make (items (a)), w, extras);
}
// items missing, repeated, reordered, of another kind
static void pieces (Ctx &c)
{
    if (off (c)) return; std::vector<Item> v = items (base ()); int k = c.choose (5); Want w; int n = v.size ();
    switch (k)
    {
    case 0: { unsigned drop = 0; for (int i = 0; i < n; i++) if (c.choose (2)) drop |= 1u << i; std::vector<Item> r; for (int i = 0; i < n; i++) if (!(drop >> i & 1)) r.push_back (v[i]); w = drop ? REFUSE : ACCEPT; v = r; break; }
    case 1: { std::vector<Item> r; std::vector<Item> left = v; while (!left.empty ()) { int i = c.choose (left.size ()); r.push_back (left[i]); left.erase (left.begin () + i); } v = r; w = ACCEPT; break; }
    case 2: { int i = c.choose (n), at = c.choose (n + 1); v.insert (v.begin () + at, v[i]); w = EITHER; break; } // the same again
    case 3: { int i = c.choose (n), t = c.choose (6); static const char T[] = "512346"; v[i].type = T[t]; if (T[t] == '1' || T[t] == '2') v[i].link = v[(i + 1) % n].path; v[i].data.clear (); w = REFUSE; break; }
    default: { int i = c.choose (n); v[i].data.clear (); w = i == 5 || i == 4 || i == 3 ? REFUSE : EITHER; if (w == EITHER) { arc::Content part = good; part.erase (IDS[i]); c.note ("an empty entry\n"); one (c, tar::make (v), EITHER, true, &part); return; } break; }
    }
    std::string t; for (auto &i : v) t += strf ("%s (%c)\n", i.path.c_str (), i.type); c.note ("%s", t.c_str ()); one (c, tar::make (v), w);
}
// cut anywhere
static void cut (Ctx &c)
{
    if (off (c)) return; bool xz = c.choose (2); static std::string plain; if (plain.empty ()) plain = tar::make (items (base ())); const std::string &t = xz ? packed : plain; int step = c.thorough () || xz ? 1 : 16; int n = c.choose ((t.size () - 1) / step + 1) * step; c.note ("%s archive of %zu bytes cut to %d\n", xz ? "compressed" : "plain", t.size (), n);
    one (c, t.substr (0, n), n + 1024 < (int) t.size () && !xz ? REFUSE : EITHER);
}
// one byte changed: headers and compressed data have checksums
static void bytes (Ctx &c)
{
    if (off (c)) return; bool xz = c.choose (2); static std::string plain; static std::vector<int> heads; if (plain.empty ()) { plain = tar::make (items (base ())); int o = 0; for (auto &i : items (base ())) { for (int k = 0; k < 512; k++) heads.push_back (o + k); o += tar::body (i).size (); } }
    std::string t = xz ? packed : plain; int at = xz ? c.choose (t.size ()) : heads[c.choose (heads.size ())]; if (!xz && !c.thorough () && at % 512 > 340) c.prune (); unsigned char old = t[at]; unsigned char now; if (c.thorough () && xz) { now = c.choose (256); } else { int k = c.choose (xz ? 8 : 3); now = xz ? old ^ 1 << k : k == 0 ? 0 : k == 1 ? 0xff : old + 1; } if (now == old) c.prune (); t[at] = now; c.note ("%s archive, byte %d: %02x is %02x\n", xz ? "compressed" : "plain", at, old, now);
    one (c, t, EITHER);
}
// hostile items beside the good ones
static void crafted (Ctx &c)
{
    if (off (c)) return; std::vector<Item> v = items (base ()), add; std::string o = outside; Want w = EITHER; std::string esc = "../../outside"; bool extras = false; const arc::Content *is = NULL; static arc::Content part;
    static const char *P[] = { "../../outside/", "../../outside/dir/", "JSON/../../../outside/", "JSON/g/d/../../../../../outside/", "./../../outside/", "../", "" }; int k = c.choose (5);
    switch (k)
    {
    case 0: { std::string p = P[c.choose (7)]; static const char *N[] = { "new", "secret", "kept" }; static const char T[] = "05346"; p += N[c.choose (3)]; add.push_back (Item (p, "hostile\n", T[c.choose (5)])); if (add[0].type != '0') add[0].data.clear (); break; } // a path that climbs
    case 1: { static const char *L[] = { "link", "JSON", "JSON/g", "TOML/h/z" }; std::string l = L[c.choose (4)]; static const char *TO[] = { "%s", "%s/dir", "../../outside", "../../../outside" }; add.push_back (Item (l, "", '2', strf (TO[c.choose (4)], o.c_str ()))); static const char *F[] = { "secret", "new", "dir/kept" }; add.push_back (Item (l + "/" + F[c.choose (3)], "hostile\n")); break; } // through a symbolic link
    case 2: { std::string l = "hard"; static const char *TO[] = { "secret", "dir/kept" }; add.push_back (Item (l, c.choose (2) ? "hostile\n" : "", '1', o + "/" + TO[c.choose (2)])); if (c.choose (2)) add.push_back (Item (l, "hostile\n")); break; } // a hard link
    case 3: { int i = c.choose (6), t = c.choose (2); v[i].type = t ? '1' : '2'; v[i].data.clear (); static const char *TO[] = { "%s/secret", "../../../../outside/secret", "../../outside/secret", "../../../outside/secret" }; v[i].link = strf (TO[c.choose (4)], o.c_str ()); w = REFUSE; break; } // a part that is a link to something outside
    default: { static const int MODES[] = { 0, 0444, 0200, 04755, 0777, 07777 }; int i = c.choose (6); v[i].mode = MODES[c.choose (6)]; w = ACCEPT; break; } // permissions
    }
    if (!add.empty ()) { int at = c.choose (2); v.insert (at ? v.end () : v.begin (), add.begin (), add.end ()); } (void) extras; (void) is;
    std::string t; for (auto &i : v) t += strf ("%s (%c%s%s, %o)\n", i.path.c_str (), i.type, i.link.empty () ? "" : " to ", i.link.c_str (), i.mode); c.note ("%s", t.c_str ()); one (c, tar::make (v), w);
}
// the index names entries that are present in the archive, but no entries of a system
static void names (Ctx &c)
{
    if (off (c)) return; Arch a = base (); static const char *E[] = { "../x", "../../outside/new", "../../../outside/secret", "x/../../y", "/abs", ".", "..", "a/", "", "x", "d", "d/b/c", "__namespace", "a\nb", "a b" }; static const char *G[] = { "g", "..", "../..", "nogroup", "", "h" };
    std::string e = E[c.choose (15)], g = G[c.choose (6)]; std::string esc = e == "a\nb" ? "a\\nb" : e; if (g == "g") a.index["JSON"].groups[0].second += q (esc) + " = \"1.0\"\n"; else { a.backends[0].groups = strf ("groups = [\"g\", %s]\n", q (g).c_str ()); a.index["JSON"].groups.push_back ({ "[" + q (g) + "]\n", q (esc) + " = \"1.0\"\n" }); }
    a.files.push_back (Item ("JSON/" + g + "/" + e, good[IDS[0]])); c.note ("%s:%s\n", g.c_str (), quote (e).c_str ()); one (c, tar::make (items (a)), EITHER, true);
}
// no archive at all
static void other_files (Ctx &c)
{
    if (off (c)) return; static const char *T[] = { "", "x", "\n", "PK\3\4", "\xfd" "7zXZ", "not an archive, but a text\n" }; int k = c.choose (8); std::string t = k < 6 ? std::string (T[k]) : k == 6 ? std::string (1024, '\0') : std::string (5000, 'x'); c.note ("a file of %zu bytes\n", t.size ()); one (c, t, REFUSE);
}
int main (int argc, char **argv)
{
    Info i = { "C31", "exploration",
        "An archive of three entries in two groups, read for import and for extending: every value of metadata and index replaced by one of every type, missing or repeated; every subset and order of its items, items repeated, emptied or of another type; cut at every length; every byte of the compressed archive and of the plain headers changed (quick: eight bit flips, three values); "
        "items with climbing paths, links, devices and permissions beside and in place of the good ones; hostile names in the index; files that are no archives. Refused as a whole, or presenting only archived entries with the archived content; nothing outside the temporary folder changes or is read, nothing stays",
        { "an archive that presents fewer entries than it has files is not damaged", "the temporary files of the archive code are redirected from /tmp to a private directory at the system call" }, init, NULL };
    return mc::main (argc, argv, i, { { "metadata", 2, metadata, false, 20 }, { "indexes", 2, indexes, false, 20 }, { "pieces", 3, pieces, false, 20 }, { "cut", 2, cut, false, 20 }, { "bytes", 2, bytes, false, 20 }, { "crafted", 3, crafted, false, 20 }, { "names", 2, names, false, 20 }, { "other-files", 1, other_files, false, 20 } });
}
