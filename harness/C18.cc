// C18: stored configs behave like a map from entry id to config
// technique: explicit-state model checking of the store: every transition of the reference map (all stored maps x all operations) and all operation sequences up to a bounded depth, executed on the real instance and observed completely after each
#include "fs.h"
#include "types.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::string CF[2], MO, base; static disir_instance *in;
static const char *ID[] = { "a", "a_9", "a/b" }, *G[] = { "g", "h" }, *EXT[] = { ".json", ".toml" };
static Mold M[3]; static disir_mold *mp[3]; static Cfg C[3][3]; static disir_config *cp[3][3];      // [2] is invalid
static void init (const char *s)
{
    base = s; MO = base + "/m"; for (int g = 0; g < 2; g++) { CF[g] = base + (g ? "/h" : "/g"); fs::mkdirs (CF[g]); } fs::mkdirs (MO + "/a");
    for (int i = 0; i < 3; i++)
    {
        MEl k = MEl::kv ("k", Val::in (i)).with (Res::min (0)).with (Res::range (0, 100)), t = MEl::kv ("t", Val::str ("")).with (Res::min (0)), f = MEl::kv (strf ("only%d", i), Val::bo (true)).def (Ver (2, 0), Val::bo (false));
        M[i].kids = { k, f, MEl::section ("s", { t }).with (Res::min (0)).with (Res::max (4)) }; fs::put (MO + (i == 0 ? "/a.json" : i == 1 ? "/a_9.json" : "/a/__namespace.json"), fs::mold_text (M[i]));
        Steps S; if (build_mold (M[i], &mp[i], &S)) abort ();
        C[i][0].v = Ver (2, 0); C[i][0].kids = { CEl::kv ("k", Val::in (1)), CEl::kv (strf ("only%d", i), Val::bo (true)), CEl::section ("s", { CEl::kv ("t", Val::str (std::string (300, 'x') + ID[i])) }), CEl::section ("s", { CEl::kv ("t", Val::str ("second")) }) };
        C[i][1].v = Ver (1, 0); C[i][1].kids = { CEl::kv (strf ("only%d", i), Val::bo (false)) };
        for (int v = 0; v < 2; v++) if (build_config (C[i][v], mp[i], &cp[i][v], &S)) abort ();
        // the required keyval is missing
        disir_context *x = NULL; if (dc_config_begin (mp[i], &x)) abort (); enum disir_status r = dc_config_finalize (&x, &cp[i][2]); if (r != DISIR_STATUS_INVALID_CONTEXT || !cp[i][2]) abort (); std::string err; if (!dump_config (cp[i][2], C[i][2], err)) abort ();
    }
    in = fs::empty (); for (int g = 0; g < 2; g++) fs::attach (in, g, CF[g], MO, G[g]);
}
struct Map { int at[2][3]; };     // -1, or the stored content
static std::string str (const Map &m) { std::string s; for (auto &g : m.at) for (int x : g) s += strf ("%d", x + 1); return s; }
static void matches (Ctx &c, int g, int i, int want, disir_mold *with)
{
    disir_config *p = NULL; enum disir_status s = disir_config_read (in, G[g], ID[i], with, &p);
    if (want < 0) { MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !p, "read-missing", "reading %s/%s, which is not stored: %s", G[g], ID[i], st (s)); return; }
    CfgH q; q.p = p; MC_CHECK (c, s == (want == 2 ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_OK) && p, "read", "reading %s/%s: %s (%s)", G[g], ID[i], st (s), disir_error (in)); Cfg got; std::string err; MC_CHECK (c, dump_config (p, got, err), "dump", "%s", err.c_str ());
    MC_CHECK (c, got == C[i][want], "read-content", "reading %s/%s gives %s, last written %s", G[g], ID[i], show (got).c_str (), show (C[i][want]).c_str ());
}
static void list (Ctx &c, int g, const Map &m, const std::set<std::string> &extra)
{
    disir_entry *e = NULL; enum disir_status s = disir_config_entries (in, G[g], &e); std::vector<std::string> got; for (disir_entry *n; e; e = n) { n = e->next; got.push_back (e->de_entry_name); disir_entry_finished (&e); }
    MC_CHECK (c, s == DISIR_STATUS_OK, "list", "listing %s: %s", G[g], st (s)); std::vector<std::string> want (extra.begin (), extra.end ()); for (int i = 0; i < 3; i++) if (m.at[g][i] >= 0) want.push_back (ID[i]);
    std::sort (got.begin (), got.end ()); std::sort (want.begin (), want.end ()); std::string a, b; for (auto &x : got) a += x + " "; for (auto &x : want) b += x + " "; MC_CHECK (c, got == want, "list-content", "listing %s gives %s, stored are %s", G[g], a.c_str (), b.c_str ());
}
// everything stored is there, nothing else is, and looking does not change anything
static void observe (Ctx &c, const Map &m, int groups, const std::set<std::string> &extra)
{
    fs::Snap f0 = fs::snap (base);
    for (int g = 0; g < groups; g++)
    {
        list (c, g, m, extra);
        for (int i = 0; i < 3; i++)
        {
            disir_entry *e = NULL; enum disir_status s = disir_config_query (in, G[g], ID[i], &e); bool has = m.at[g][i] >= 0;
            MC_CHECK (c, s == (has ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST) && (e != NULL) == has, "query", "querying %s/%s, which is %sstored: %s, entry %p", G[g], ID[i], has ? "" : "not ", st (s), (void *) e);
            if (e) { MC_CHECK (c, !strcmp (e->de_entry_name, ID[i]), "query-name", "querying %s gives the entry %s", ID[i], e->de_entry_name); disir_entry_finished (&e); }
            matches (c, g, i, m.at[g][i], NULL); if (c.thorough ()) matches (c, g, i, m.at[g][i], mp[i]);
        }
        list (c, g, m, extra);
    }
    fs::Snap f1 = fs::snap (base); MC_CHECK (c, f0 == f1, "observe", "reading, querying and listing change files: %s", fs::diff (f0, f1).c_str ());
    for (int g = 0; g < groups; g++) for (int i = 0; i < 3; i++) { std::string p = std::string (G[g]) + "/" + ID[i] + EXT[g]; MC_CHECK (c, f0.count (p) == (m.at[g][i] >= 0), "file", "%s/%s is %sstored, its file is %sthere", G[g], ID[i], m.at[g][i] >= 0 ? "" : "not ", f0.count (p) ? "" : "not "); }
}
static int nops (int groups) { return groups * 12 + 8; }
// an operation of the store on the map and on the instance
static std::string op (Ctx &c, int groups, int k, Map &m)
{
    if (k < groups * 12)
    {
        int g = k / 12, i = k % 12 / 4, w = k % 4; enum disir_status s; std::string n;
        if (w == 3)
        {
            s = disir_config_remove (in, G[g], ID[i]); n = strf ("remove %s/%s", G[g], ID[i]); c.note ("%s\n", n.c_str ()); bool has = m.at[g][i] >= 0;
            MC_CHECK (c, s == (has ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST), "remove", "removing %s/%s, which is %sstored: %s", G[g], ID[i], has ? "" : "not ", st (s)); m.at[g][i] = -1; return n;
        }
        n = strf ("write %s/%s %s", G[g], ID[i], w == 2 ? "invalid" : w ? "short" : "long"); c.note ("%s\n", n.c_str ()); s = disir_config_write (in, G[g], ID[i], cp[i][w]);
        { MC_CHECK (c, s == DISIR_STATUS_OK, "write", "writing %s/%s: %s (%s)", G[g], ID[i], st (s), disir_error (in)); m.at[g][i] = w; }
        return n;
    }
    k -= groups * 12; static const char *BAD[] = { "b", "a/", "", "a/b/c" }; const char *id = BAD[k / 2]; enum disir_status s; std::string n = strf ("%s %s", k & 1 ? "remove" : "write", id); c.note ("%s\n", n.c_str ());
    if (k & 1) s = disir_config_remove (in, G[0], id); else s = disir_config_write (in, G[0], id, cp[0][0]);
    MC_CHECK (c, s == (k / 2 == 0 || k / 2 == 3 ? DISIR_STATUS_MOLD_MISSING : DISIR_STATUS_FS_ERROR), "bad-id", "%s \"%s\": %s", k & 1 ? "removing" : "writing", id, st (s)); return n;
}
static void clear () { for (int g = 0; g < 2; g++) fs::clear (CF[g]); disir_error_clear (in); }
static Map blank () { Map m; for (auto &g : m.at) for (int &x : g) x = -1; return m; }
// every transition of the reference map: from every stored map, every operation
static void graph (Ctx &c)
{
    Map m = blank (); for (int g = 0; g < 2; g++) if (g && !c.thorough ()) { int k = c.choose (3); for (int i = 0; i < 3; i++) m.at[g][i] = k == 2 ? i : k - 1; } else for (int i = 0; i < 3; i++) m.at[g][i] = (int) c.choose (4) - 1;
    int k = c.choose (nops (2)); clear ();
    for (int g = 0; g < 2; g++) for (int i = 0; i < 3; i++) if (m.at[g][i] >= 0) { enum disir_status s = disir_config_write (in, G[g], ID[i], cp[i][m.at[g][i]]); MC_CHECK (c, s == DISIR_STATUS_OK, "write", "writing %s/%s: %s", G[g], ID[i], st (s)); }
    c.note ("from %s: ", str (m).c_str ()); c.risk ("crash"); Map n = m; size_t h0, h1; { disir_error_clear (in); h0 = heap (); { std::string o = op (c, 2, k, n); } disir_error_clear (in); h1 = heap (); }
    static std::set<int> warm; if (warm.insert (k).second == false) MC_CHECK (c, h1 == h0, "leak", "operation %d keeps %zd bytes", k, (ssize_t) (h1 - h0));
    observe (c, n, 2, {}); c.state (str (m)); c.transition (str (m), strf ("%d", k)); c.nontrivial (str (m)); c.outcome (str (n)); c.validated ();
}
// all sequences of operations, observed at the end (prefixes are sequences of their own)
static void sequences (Ctx &c, int groups, int depth)
{
    Map m = blank (); clear (); int len = c.choose (depth) + 1; std::string tr; c.risk ("crash");
    for (int i = 0; i < len; i++) { std::string b = str (m); std::string o = op (c, groups, c.choose (nops (groups)), m); c.transition (b, o); tr += o + ";"; }
    observe (c, m, groups, {}); c.state (str (m)); c.nontrivial (tr); c.outcome (str (m)); c.validated ();
}
static void seq_one (Ctx &c) { sequences (c, 1, c.thorough () ? 4 : 3); }
static void seq_two (Ctx &c) { sequences (c, 2, c.thorough () ? 3 : 2); }
// files that are no entries, in any combination, and ids that are prefixes of files
static void foreign (Ctx &c)
{
    struct F { const char *rel, *text; bool dir, entry; }; static const F X[] = { { "README", "x", false, false }, { "a.json~", "{}", false, false }, { "a.toml", "x", false, false }, { "b.json", "{}", false, false }, { "A.json", "{}", false, false }, { ".json", "{}", false, false }, { "c/d.json", "{}", false, false }, { "a/x.txt", "", false, false }, { "q.json", NULL, true, false }, { "ab/", NULL, true, false } };
    int mask = c.choose (1 << (sizeof X / sizeof *X)); if (!c.thorough () && __builtin_popcount (mask) > 3) c.prune (); int w = c.choose (4); clear (); std::string tr = strf ("%d %d", mask, w);
    for (size_t k = 0; k < sizeof X / sizeof *X; k++) if (mask >> k & 1) { std::string p = CF[0] + "/" + X[k].rel; if (X[k].dir) fs::mkdirs (p); else { fs::mkdirs (p.substr (0, p.rfind ('/'))); fs::put (p, X[k].text); } c.note ("with %s\n", X[k].rel); }
    Map m = blank (); c.risk ("crash"); for (int i = 0; i < 3; i++) if (w >> (i & 1) & 1) op (c, 1, i * 4 + (mask & 1), m);
    fs::Snap f = fs::snap (CF[0]); for (size_t k = 0; k < sizeof X / sizeof *X; k++) if ((mask >> k & 1) && !X[k].dir) MC_CHECK (c, f.count (X[k].rel) && f[X[k].rel] == X[k].text, "foreign", "the file %s is changed", X[k].rel);
    observe (c, m, 1, {}); c.state (tr); c.nontrivial (tr); c.outcome (str (m)); c.validated ();
}
// what is overwritten keeps its permissions and its place
static void kept (Ctx &c)
{
    static const int MODES[] = { 0600, 0640, 0644, 0660, 0666, 0755, 0400, 0444 }; int g = c.choose (2), i = c.choose (3), w = c.choose (2), m = MODES[c.choose (8)], um = c.choose (3) * 011, link = c.choose (4), types = c.choose (2); no_types = false; clear (); Map x = blank ();
    std::string p = CF[g] + "/" + ID[i] + "." + (g ? "toml" : "json"), dir = CF[g] + "/elsewhere", real = link ? dir + "/target" : p; mode_t old = umask (um); c.note ("mode %o, umask %o, %s\n", m, um, link == 0 ? "a file" : link == 1 ? "a symbolic link" : link == 2 ? "a chain of symbolic links" : "a symbolic link to nothing"); if (!types) c.note ("the directory does not tell the types of its entries\n");
    fs::mkdirs (dir); fs::mkdirs (p.substr (0, p.rfind ('/'))); if (link < 3) { fs::put (real, "{}"); chmod (real.c_str (), m); }
    if (link == 2) { if (symlink (real.c_str (), (dir + "/hop").c_str ()) || symlink ((dir + "/hop").c_str (), p.c_str ())) abort (); } else if (link && symlink (real.c_str (), p.c_str ())) abort ();
    c.risk ("crash"); enum disir_status s = disir_config_write (in, G[g], ID[i], cp[i][w]); umask (old); MC_CHECK (c, s == DISIR_STATUS_OK, "write", "writing %s/%s: %s (%s)", G[g], ID[i], st (s), disir_error (in)); x.at[g][i] = w;
    struct stat t; MC_CHECK (c, !lstat (p.c_str (), &t) && (link ? S_ISLNK (t.st_mode) : S_ISREG (t.st_mode)), "replaced", "the %s is replaced", link ? "symbolic link" : "file"); MC_CHECK (c, !stat (real.c_str (), &t), "target", "there is nothing at its target");
    int want = link < 3 ? m : 0666 & ~um; MC_CHECK (c, (int) (t.st_mode & 0777) == want, "mode", "the permissions are %o, expected %o", t.st_mode & 0777, want); fs::Snap f = fs::snap (CF[g]); int n = 0; for (auto &e : f) n += e.second != "/"; MC_CHECK (c, n <= 1 + link, "litter", "%d files are left", n);
    std::string k = strf ("%d %d %d %o %o %d", g, i, w, m, um, link); { disir_config *q = NULL; enum disir_status r = disir_config_read (in, G[g], ID[i], NULL, &q); MC_CHECK (c, r == DISIR_STATUS_OK, "read", "reading it: %s", st (r)); disir_config_finished (&q); } no_types = !types; list (c, g, x, {}); no_types = false; k += strf (" %d", types); c.state (k); c.nontrivial (k); c.outcome (strf ("%o", m)); c.validated ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C18", "model_checking",
        "Two groups (JSON and TOML) with three entry ids (one a prefix of another, one below a directory of the same name) and two valid contents and an invalid one each: every stored map with every operation from it, and every operation sequence up to the bound, each followed by a complete observation through read, query and list; and every set of up to three foreign files beside the entries.",
        { "the file system itself behaves (faults are C19)", "one process uses the directories at a time" }, init, NULL };
    return mc::main (argc, argv, i, { { "graph", 3, graph }, { "one-group", 2, seq_one }, { "two-groups", 2, seq_two }, { "foreign", 2, foreign }, { "kept", 3, kept } });
}
