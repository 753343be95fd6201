// C30: an instance loads exactly the plugins its configuration names
// technique: exhaustive exploration of real instance creation: every list of up to three plugin entries over loadable, missing and defective libraries, as object and as file, against a model of what is loaded, registered, finished and unloaded
#include "fs.h"
#include <stdarg.h>
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::vector<std::string> events; static char buffer[200][160]; static int nbuffer; // no heap use while the library runs
extern "C" void c30_event (const char *fmt, ...) { if (nbuffer < 200) { va_list a; va_start (a, fmt); vsnprintf (buffer[nbuffer++], sizeof *buffer, fmt, a); va_end (a); } }
static std::string join (const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + "; "; return r; }
static std::string take () { std::string r; for (int i = 0; i < nbuffer; i++) r += std::string (buffer[i]) + "; "; nbuffer = 0; return r; }
static std::map<std::string, std::string> so; static std::string base; static disir_mold *libmold; static std::string longdir;
// kinds of plugin entries
enum { REC0, REC1, REC2, JSON, TOML, NODIRS, LONG, GOODS, MISSING = GOODS, NOTELF, ISDIR, NOSYM, FAIL, EXISTS, UNRESOLVED, NONAME, NOTYPE, NOGROUP, NOID, NOPATH, OMITTED_GROUP, OMITTED_ID, OMITTED_PATH, NKINDS };
static const char *KN[] = { "rec0", "rec1", "rec2", "json", "toml", "rec0 without directories", "rec1 with long directories", "a missing library", "a text file", "a directory", "a library without the symbol", "a failing library", "a library failing with EXISTS", "an unresolved library", "a library without name", "a library without type", "no group", "no id", "no path", "group left out", "id left out", "path left out" };
static const char *LIB[] = { "rec0", "rec1", "rec2", "json", "toml", "rec0", "rec1", NULL, NULL, NULL, "nosym", "fail", "exists", "unresolved", "noname", "notype", "rec0", "rec0", NULL, "rec0", "rec0", NULL };
static std::string lib_path (int k) { return k == MISSING ? base + "/none.so" : k == NOTELF ? base + "/text.so" : k == ISDIR ? base : k == NOPATH ? "" : k == OMITTED_PATH ? "" : so[LIB[k]]; }
struct Entry { int kind; int group; };
static const char *GROUP[] = { "g", "h", "g.h" };
static std::string cdir (int i, int k) { return k == LONG ? longdir + strf ("c%d", i) : strf ("/c/%d", i); }
static std::string mdir (int i, int k) { return k == LONG ? longdir + strf ("m%d", i) : strf ("/m/%d", i); }
static Cfg model_config (const std::vector<Entry> &v)
{
    Cfg c; for (size_t i = 0; i < v.size (); i++)
    {
        int k = v[i].kind; CEl s = CEl::section ("plugin"); if (k != OMITTED_GROUP) s.kids.push_back (CEl::kv ("group_id", Val::str (k == NOGROUP ? "" : GROUP[v[i].group]))); if (k != OMITTED_ID) s.kids.push_back (CEl::kv ("io_id", Val::str (k == NOID ? "" : strf ("id%zu", i))));
        if (k != NODIRS) { s.kids.push_back (CEl::kv ("config_base_id", Val::str (cdir (i, k)))); s.kids.push_back (CEl::kv ("mold_base_id", Val::str (mdir (i, k)))); } if (k != OMITTED_PATH) s.kids.push_back (CEl::kv ("plugin_filepath", Val::str (lib_path (k)))); c.kids.push_back (s);
    } return c;
}
static std::string tomlq (const std::string &s) { return "\"" + s + "\""; }
static std::string toml_text (const Cfg &c) { std::string r = "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n"; for (auto &s : c.kids) { r += "[[plugin]]\n"; for (auto &k : s.kids) r += k.name + " = " + tomlq (k.val.s) + "\n"; } return r; }
// what happens: events while creating, the result, and events while destroying
struct World { std::vector<std::string> create, destroy; int status; std::vector<int> loaded; };
static std::string shorten (const std::string &s) { return s.substr (0, sizeof *buffer - 1); }
static std::string dirs (size_t i, int k, bool two) { return k == NODIRS ? two ? "- -" : "-" : two ? cdir (i, k) + " " + mdir (i, k) : cdir (i, k); }
static World expect (const std::vector<Entry> &v)
{
    World w; w.status = DISIR_STATUS_OK; bool invalid = v.empty (); for (auto &e : v) if (e.kind == NODIRS || e.kind >= OMITTED_GROUP) invalid = true; if (invalid) { w.status = -1; return w; } std::map<std::string, int> refs; auto ours = [] (int k) { return LIB[k] && k != JSON && k != TOML; };
    for (size_t i = 0; i < v.size () && w.status == DISIR_STATUS_OK; i++)
    {
        int k = v[i].kind; if (k >= NOGROUP) { w.status = DISIR_STATUS_CONFIG_INVALID; break; } if (k == MISSING || k == NOTELF || k == ISDIR || k == UNRESOLVED) { w.status = DISIR_STATUS_LOAD_ERROR; break; }
        if (ours (k)) { if (!refs[LIB[k]]++) w.create.push_back (strf ("load %s", LIB[k])); if (k != NOSYM) w.create.push_back (shorten (strf ("register %s %s", LIB[k], dirs (i, k, true).c_str ()))); }
        if (k < GOODS) { w.loaded.push_back (i); continue; } w.status = k == NONAME || k == NOTYPE ? -1 : DISIR_STATUS_PLUGIN_ERROR;   // -1: some error
        if (!--refs[LIB[k]]) w.create.push_back (strf ("unload %s", LIB[k]));
    }
    for (int i : w.loaded) { int k = v[i].kind; if (!ours (k)) continue; w.destroy.push_back (shorten (strf ("finished %s %s", LIB[k], dirs (i, k, false).c_str ()))); if (!--refs[LIB[k]]) w.destroy.push_back (strf ("unload %s", LIB[k])); }
    if (w.status != DISIR_STATUS_OK) { w.create.insert (w.create.end (), w.destroy.begin (), w.destroy.end ()); w.destroy.clear (); w.loaded.clear (); } return w;
}
static std::string show (const std::vector<Entry> &v) { std::string r; for (auto &e : v) r += strf ("%s in group %s; ", KN[e.kind], GROUP[e.group]); return v.empty () ? "no plugins" : r; }
static void init (const char *s)
{
    base = s; const char *p = getenv ("VERIF_PLUGINS"); if (!p) { fprintf (stderr, "no plugins\n"); abort (); } std::string t = p; size_t a = 0; while (a < t.size ()) { size_t b = t.find (':', a); if (b == std::string::npos) b = t.size (); std::string x = t.substr (a, b - a); so[x.substr (0, x.find ('='))] = x.substr (x.find ('=') + 1); a = b + 1; }
    for (auto &x : so) { std::string d; fs::get (x.second, d); x.second = base + "/" + x.first + ".so"; fs::put (x.second, d); } // each worker has its own
    fs::put (base + "/text.so", "not a library\n"); longdir = "/" + std::string (600, 'l') + "/"; if (disir_libdisir_mold (&libmold)) abort ();
}
static void groups_of (Ctx &c, disir_instance *in, const std::vector<Entry> &v, const std::vector<int> &loaded)
{
    disir_plugin *p = NULL; enum disir_status s = disir_plugin_registered (in, &p); std::string got, want; for (int i : loaded) want += std::string (GROUP[v[i].group]) + " "; for (disir_plugin *x = p, *n; x; x = n) { n = x->next; got += std::string (x->pl_group_id) + " "; disir_plugin_finished (&x); } MC_CHECK (c, s == DISIR_STATUS_OK && got == want, "registered", "registered: %s, expected %s", got.c_str (), want.c_str ());
    take (); for (int g = 0; g < 3; g++)
    {
        std::string w; for (int i : loaded) if (v[i].group == g && v[i].kind != JSON && v[i].kind != TOML) w += shorten (strf ("query %s e", dirs (i, v[i].kind, false).c_str ())) + "; ";
        disir_entry *e = NULL; s = disir_config_query (in, GROUP[g], "e", &e); std::string ev = take (); MC_CHECK (c, ev == w, "dispatch", "a query in group %s (%s): %s, expected %s", GROUP[g], st (s), ev.c_str (), w.c_str ());
    }
    disir_error_clear (in);
}
enum { OBJECT, FILE_, BOTH };
static bool create (const char *file, const Cfg *c, disir_instance **in, enum disir_status &s)
{
    disir_config *g = NULL; if (c) { Steps S; enum disir_status b = build_config (*c, libmold, &g, &S); if (!g) { s = b; return false; } } s = disir_instance_create (file, g, in); if (s != DISIR_STATUS_OK && g) disir_config_finished (&g); return true;
}
static void one (Ctx &c, const std::vector<Entry> &v, int source)
{
    World w = expect (v); Cfg cfg = model_config (v); std::string file = base + "/libdisir.toml"; fs::put (file, source == BOTH ? "plugin = 3" : toml_text (cfg)); c.note ("%s%s\n", source == OBJECT ? "object: " : source == FILE_ ? "file: " : "object and (ignored) file: ", show (v).c_str ()); c.risk ("crash"); c.state (show (v) + strf ("%d", source)); size_t h[4]; std::string wc = join (w.create), wd = join (w.destroy);
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); {
        take (); disir_instance *in = NULL; enum disir_status s; bool built = create (source == OBJECT ? NULL : file.c_str (), source == FILE_ ? NULL : &cfg, &in, s); MC_CHECK (c, built, "build", "the configuration cannot be built: %s", st (s)); std::string ev = take ();
        bool ok = w.status == -1 ? s != DISIR_STATUS_OK : s == w.status; MC_CHECK (c, ok && (s == DISIR_STATUS_OK) == (in != NULL), "status", "%s: %s, expected %s", show (v).c_str (), st (s), w.status == -1 ? "an error" : st ((enum disir_status) w.status)); MC_CHECK (c, ev == wc, "events", "%s: %s, expected %s", show (v).c_str (), ev.c_str (), wc.c_str ());
        if (!i) { c.outcome (strf ("%s, %zu registered", st (s), w.loaded.size ())); std::string pre; for (auto &e : v) { c.transition (pre, KN[e.kind]); pre += strf ("%d ", e.kind); } if (v.size () > 1 && w.status != DISIR_STATUS_OK && v[0].kind < GOODS) c.nontrivial (show (v)); }
        if (in) { groups_of (c, in, v, w.loaded); s = disir_instance_destroy (&in); ev = take (); MC_CHECK (c, s == DISIR_STATUS_OK && !in, "destroy", "%s", st (s)); MC_CHECK (c, ev == wd, "destroy-events", "%s: %s, expected %s", show (v).c_str (), ev.c_str (), wd.c_str ()); } }
        h[i + 1] = heap (); if (i && h[i + 1] == h[i]) break;
    }
    MC_CHECK (c, h[3] == h[2] || h[2] == h[1], "leak", "creating and destroying keeps %zd bytes", (ssize_t) (h[3] - h[2])); c.validated ();
}
static void lists (Ctx &c)
{
    int n = c.choose (4), source = c.choose (n < 2 ? 3 : 2); std::vector<Entry> v; for (int i = 0; i < n; i++) { Entry e; e.kind = c.choose (NKINDS); e.group = c.choose (n == 3 && !c.thorough () ? 1 : 3); if (n == 3 && !c.thorough ()) e.group = (i + e.kind) % 3; v.push_back (e); if (e.kind >= GOODS && i < n - 1 && i < 1 && n == 3) c.prune (); } one (c, v, source);
}
// configurations that cannot be used
struct Bad { const char *name, *text; bool ok; };
static const Bad FILES[] = { { "empty", "", false }, { "version only", "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n", false }, { "malformed", "[[plugin]\n", false }, { "unknown entry", "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\nlog = \"x\"\n", false }, { "unknown plugin entry", "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n[[plugin]]\ncolour = \"x\"\n", false }, { "plugin is a value", "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\nplugin = \"x\"\n", false }, { "wrong type", "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n[[plugin]]\ngroup_id = 3\nio_id = \"x\"\nplugin_filepath = \"@\"\n", false }, { "newer version", "\"@DISIR_CONFIG_VERSION\" = \"9.0\"\n", false }, { "bad version", "\"@DISIR_CONFIG_VERSION\" = \"x\"\n", false }, { "binary", "\x01\x02\xff\xfe", false }, { "not there", NULL, false }, { "a directory", NULL, false }, { "below a file", NULL, false }, { "an empty name", NULL, false } };
enum { NFILES = sizeof FILES / sizeof *FILES };
static void files (Ctx &c)
{
    int k = c.choose (NFILES); const Bad &b = FILES[k]; std::string f = base + "/libdisir.toml"; if (b.text) { std::string t = b.text; size_t p = t.find ('@'); if (p != std::string::npos) t.replace (p, 1, so["rec0"]); fs::put (f, t); } else { std::string n = b.name; if (n == "not there") f = base + "/absent.toml"; else if (n == "a directory") f = base; else if (n == "below a file") { fs::put (f, ""); f += "/x"; } else f = ""; }
    c.note ("file: %s\n", b.name); c.risk ("crash"); c.state (b.name); c.nontrivial (b.name); size_t h[4]; auto before = fs::snap (base);
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); { take (); disir_instance *in = NULL; enum disir_status s; create (f.c_str (), NULL, &in, s); if (!i) c.outcome (st (s)); MC_CHECK (c, (s == DISIR_STATUS_OK) == b.ok && (in != NULL) == b.ok, "file", "a configuration file that is %s: %s", b.name, st (s)); if (in) { groups_of (c, in, {}, {}); disir_instance_destroy (&in); } std::string ev = take (); MC_CHECK (c, ev.empty (), "events", "%s", ev.c_str ()); } h[i + 1] = heap ();
    }
    MC_CHECK (c, h[3] == h[2] || h[2] == h[1], "leak", "it keeps %zd bytes", (ssize_t) (h[3] - h[2])); auto after = fs::snap (base); MC_CHECK (c, fs::diff (before, after).empty (), "files", "creating an instance changes files: %s", fs::diff (before, after).c_str ()); c.validated ();
}
// an object that is not a valid configuration is refused, and stays with the caller
static void objects (Ctx &c)
{
    int k = c.choose (5); std::vector<Entry> v = { { REC0, 0 } }; Cfg cfg = model_config (v); static const char *N[] = { "group twice", "path twice", "a valid one before an invalid one", "an invalid one before a valid one", "invalid without needed entries" };
    if (k == 0) cfg.kids[0].kids.push_back (cfg.kids[0].kids[0]); if (k == 1) cfg.kids[0].kids.push_back (cfg.kids[0].kids.back ()); if (k == 2 || k == 3) { Cfg two = model_config ({ { REC0, 0 }, { REC1, 1 } }); two.kids[k == 2].kids.push_back (two.kids[k == 2].kids[0]); cfg = two; } if (k == 4) { cfg.kids[0].kids = { CEl::kv ("io_id", Val::str ("x")), CEl::kv ("io_id", Val::str ("y")) }; }
    c.note ("%s\n", N[k]); c.risk ("crash"); c.state (N[k]); c.nontrivial (N[k]); size_t h[4]; for (int i = 0; i < 3; i++) { h[i] = heap (); { take (); disir_instance *in = NULL; enum disir_status s; bool b = create (NULL, &cfg, &in, s); c.outcome (st (s)); MC_CHECK (c, b, "build", "%s", st (s)); std::string ev = take (); MC_CHECK (c, s != DISIR_STATUS_OK && !in, "invalid-object", "an invalid configuration object (%s): %s, %s", N[k], st (s), ev.c_str ()); MC_CHECK (c, ev.empty (), "events", "%s", ev.c_str ()); } h[i + 1] = heap (); }
    MC_CHECK (c, h[3] == h[2] || h[2] == h[1], "leak", "it keeps %zd bytes", (ssize_t) (h[3] - h[2])); c.validated ();
}
// without any configuration there is an instance without plugins
static void defaults (Ctx &c)
{
    int k = c.choose (3); c.note ("default %d\n", k); c.risk ("crash"); c.state (strf ("%d", k)); c.nontrivial (strf ("%d", k)); size_t h[4];
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); { disir_instance *in = NULL, *jn = NULL; enum disir_status s = k == 0 ? disir_instance_create (NULL, NULL, NULL) : disir_instance_create (NULL, NULL, &in); if (k == 0) MC_CHECK (c, s == DISIR_STATUS_INVALID_ARGUMENT, "null", "%s", st (s)); else { MC_CHECK (c, s == DISIR_STATUS_OK && in, "default", "%s", st (s)); if (k == 2) { MC_CHECK (c, disir_instance_create (NULL, NULL, &jn) == DISIR_STATUS_OK && jn != in, "two", "a second instance"); groups_of (c, jn, {}, {}); } groups_of (c, in, {}, {}); MC_CHECK (c, disir_instance_destroy (&in) == DISIR_STATUS_OK && !in, "destroy", "destroy"); if (jn) { groups_of (c, jn, {}, {}); disir_instance_destroy (&jn); } }
            MC_CHECK (c, disir_instance_destroy (&in) == DISIR_STATUS_INVALID_ARGUMENT && disir_instance_destroy (NULL) == DISIR_STATUS_INVALID_ARGUMENT, "destroy-null", "destroying nothing"); } h[i + 1] = heap ();
    }
    MC_CHECK (c, h[3] == h[2], "leak", "it keeps %zd bytes", (ssize_t) (h[3] - h[2])); c.validated ();
}
// two instances at the same time, destroyed in either order
static void twice (Ctx &c)
{
    std::vector<Entry> v[2]; for (int j = 0; j < 2; j++) { int n = 1 + c.choose (2); for (int i = 0; i < n; i++) { int k = c.choose (c.thorough () ? GOODS - 1 : 4); v[j].push_back ({ k < NODIRS ? k : LONG, i }); }; } int order = c.choose (2); c.note ("%s / %s, destroy %d first\n", show (v[0]).c_str (), show (v[1]).c_str (), order); c.risk ("crash"); c.state (show (v[0]) + show (v[1]) + strf ("%d", order)); c.nontrivial (show (v[0]) + show (v[1])); size_t h[4];
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); { disir_instance *in[2] = { NULL, NULL }; for (int j = 0; j < 2; j++) { Cfg x = model_config (v[j]); enum disir_status s; create (NULL, &x, &in[j], s); MC_CHECK (c, s == DISIR_STATUS_OK, "status", "%s: %s", show (v[j]).c_str (), st (s)); } take (); for (int j = 0; j < 2; j++) groups_of (c, in[j], v[j], expect (v[j]).loaded);
            auto fin = [&] (int j) { std::string got, w; take (); disir_instance_destroy (&in[j]); for (int q = 0; q < nbuffer; q++) if (!strncmp (buffer[q], "finished", 8)) got += std::string (buffer[q]) + "; "; nbuffer = 0; for (auto &x : expect (v[j]).destroy) if (!x.compare (0, 8, "finished")) w += x + "; "; MC_CHECK (c, got == w, "destroy-events", "destroying one of two: %s, expected %s", got.c_str (), w.c_str ()); };
            fin (order); groups_of (c, in[1 - order], v[1 - order], expect (v[1 - order]).loaded); fin (1 - order); } h[i + 1] = heap ();
    }
    MC_CHECK (c, h[3] == h[2] || h[2] == h[1], "leak", "it keeps %zd bytes", (ssize_t) (h[3] - h[2])); c.validated ();
}
// a structure registered directly: everything is copied
static void direct (Ctx &c)
{
    static const char *F[] = { "complete", "name", "description", "config type", "mold type", "config directory", "mold directory", "group", "id", "structure", "instance" }; int k = c.choose (11), n = c.choose (3), sz[] = { 5, 511, 1300 }; c.note ("without %s, length %d\n", F[k], sz[n]); c.risk ("crash"); c.state (strf ("%d %d", k, n)); c.nontrivial (F[k]); size_t h[4];
    for (int i = 0; i < 3; i++)
    {
        h[i] = heap (); {
        disir_instance *in = NULL; if (disir_instance_create (NULL, NULL, &in)) c.fail ("create", "no instance"); disir_register_plugin p; memset (&p, 0, sizeof p); std::string big (sz[n], 'x'); char *t[7]; char **m[] = { NULL, &p.dp_name, &p.dp_description, &p.dp_config_entry_type, &p.dp_mold_entry_type, &p.dp_config_base_id, &p.dp_mold_base_id }; for (int q = 1; q < 7; q++) t[q] = *m[q] = q == k ? NULL : strdup ((big + strf ("%d", q)).c_str ());
        static std::string seen; p.dp_config_query = [] (disir_instance *, disir_register_plugin *p, const char *, disir_entry **) { const char *x[] = { p->dp_name, p->dp_description, p->dp_config_entry_type, p->dp_mold_entry_type, p->dp_config_base_id, p->dp_mold_base_id }; for (auto y : x) c30_event ("%zu%c", y ? strlen (y) : 0, y ? y[strlen (y) - 1] : '-'); return DISIR_STATUS_NOT_EXIST; };
        enum disir_status s = disir_plugin_register (k == 10 ? NULL : in, k == 9 ? NULL : &p, k == 8 ? NULL : "io", k == 7 ? NULL : "grp"); for (int q = 1; q < 7; q++) free (t[q]); if (!i) c.outcome (strf ("%s: %s", F[k], st (s))); bool ok = k == 0 || k == 5 || k == 6; MC_CHECK (c, (s == DISIR_STATUS_OK) == ok, "register", "registering without %s: %s", F[k], st (s)); take (); disir_entry *e; disir_config_query (in, "grp", "e", &e); std::string ev = take (), w; if (ok) for (int q = 1; q < 7; q++) w += q == k ? "0-; " : strf ("%d%d; ", sz[n] + 1, q); MC_CHECK (c, ev == w, "copied", "the registered strings are %s, expected %s", ev.c_str (), w.c_str ()); disir_instance_destroy (&in); }
        h[i + 1] = heap ();
    }
    MC_CHECK (c, h[3] == h[2], "leak", "it keeps %zd bytes", (ssize_t) (h[3] - h[2])); c.validated ();
}
// a configuration written to disk creates the same instance
static void written (Ctx &c)
{
    int n = 1 + c.choose (3); std::vector<Entry> v; for (int i = 0; i < n; i++) { int k = c.choose (GOODS - 1); v.push_back ({ k < NODIRS ? k : LONG, i }); } std::string f = base + "/written.toml"; unlink (f.c_str ()); Cfg cfg = model_config (v); c.note ("written: %s\n", show (v).c_str ()); c.risk ("crash"); c.state (show (v)); if (n > 1) c.nontrivial (show (v)); take (); disir_instance *in = NULL; if (disir_instance_create (NULL, NULL, &in)) c.fail ("create", "no instance"); Steps S; CfgH g; build_config (cfg, libmold, &g.p, &S); enum disir_status s = disir_libdisir_config_to_disk (in, g.p, f.c_str ()); MC_CHECK (c, s == DISIR_STATUS_OK, "to-disk", "%s", st (s)); CfgH r; s = disir_libdisir_config_from_disk (in, f.c_str (), libmold, &r.p); MC_CHECK (c, s == DISIR_STATUS_OK && r.p, "from-disk", "%s", st (s)); Cfg got; std::string e; MC_CHECK (c, dump_config (r.p, got, e), "dump", "%s", e.c_str ()); bool eq = got.kids.size () == cfg.kids.size (); for (size_t i = 0; eq && i < got.kids.size (); i++) { auto key = [] (const CEl &s) { std::map<std::string, std::string> m; for (auto &k : s.kids) m[k.name] = k.val.s; return m; }; eq = key (got.kids[i]) == key (cfg.kids[i]); } MC_CHECK (c, eq, "written", "read back %s, wrote %s", mm::show (got).c_str (), mm::show (cfg).c_str ());
    disir_instance *jn = NULL; s = disir_instance_create (f.c_str (), NULL, &jn); World w = expect (v); std::string ev = take (); MC_CHECK (c, s == DISIR_STATUS_OK && ev == join (w.create), "written-instance", "%s: %s", st (s), ev.c_str ()); groups_of (c, jn, v, w.loaded); disir_instance_destroy (&jn); disir_instance_destroy (&in); take ();
    unlink (f.c_str ()); { MC_CHECK (c, disir_instance_create (NULL, NULL, &in) == DISIR_STATUS_OK, "create", "no instance"); MC_CHECK (c, disir_libdisir_config_to_disk (in, g.p, (base + "/no/where").c_str ()) != DISIR_STATUS_OK, "to-disk", "writing into a missing directory succeeds"); disir_instance_destroy (&in); } c.validated ();
}
// the shipped plugins do every operation, loaded from a configuration; and a plugin that leaves any operation out is refused, not called
static void shipped (Ctx &c)
{
    int k = c.choose (2); std::string d = base + "/tree"; fs::mkdirs (d + "/c"); fs::mkdirs (d + "/m"); fs::clear (d + "/c"); fs::clear (d + "/m"); Cfg cfg; CEl s = CEl::section ("plugin"); const char *kv[][2] = { { "group_id", "g" }, { "io_id", "x" }, { "config_base_id", 0 }, { "mold_base_id", 0 }, { "plugin_filepath", 0 } }; std::string v[] = { "g", "x", d + "/c", d + "/m", so[k ? "toml" : "json"] }; for (int i = 0; i < 5; i++) s.kids.push_back (CEl::kv (kv[i][0], Val::str (v[i]))); cfg.kids.push_back (s);
    bool nested = c.choose (2), file = c.choose (2); std::string e = nested ? "a/b/entry" : "entry", f = base + "/libdisir.toml"; fs::put (f, toml_text (cfg)); c.note ("%s %s from a configuration %s\n", k ? "toml" : "json", e.c_str (), file ? "file" : "object"); c.risk ("crash"); c.state (strf ("%d%d%d", k, nested, file)); c.nontrivial (strf ("%d%d", k, nested)); disir_instance *in = NULL; enum disir_status st_; create (file ? f.c_str () : NULL, file ? NULL : &cfg, &in, st_); MC_CHECK (c, in, "create", "%s", st (st_));
    Mold m; m.kids.push_back (MEl::kv ("key", Val::str ("x"), Ver (1, 0))); m.kids.push_back (MEl::kv ("num", Val::in (3), Ver (1, 0))); mm::MoldH mo; Steps S; build_mold (m, &mo.p, &S); MC_CHECK (c, mo.p, "mold", "mold");
    auto is = [&] (const char *what, enum disir_status got, enum disir_status want) { c.outcome (strf ("%s: %s", what, st (got))); MC_CHECK (c, got == want, "shipped", "%s %s: %s, expected %s (%s)", k ? "toml" : "json", what, st (got), st (want), disir_error (in) ? disir_error (in) : ""); };
    is ("mold write", disir_mold_write (in, "g", e.c_str (), mo.p), DISIR_STATUS_OK); is ("mold query", disir_mold_query (in, "g", e.c_str (), NULL), DISIR_STATUS_EXISTS); { mm::MoldH r; is ("mold read", disir_mold_read (in, "g", e.c_str (), &r.p), DISIR_STATUS_OK); } is ("query before", disir_config_query (in, "g", e.c_str (), NULL), DISIR_STATUS_NOT_EXIST);
    { CfgH g; is ("generate", disir_generate_config_from_mold (mo.p, NULL, &g.p), DISIR_STATUS_OK); disir_context *x = dc_config_getcontext (g.p); dc_config_set_keyval_string (x, "changed", "key"); dc_putcontext (&x); is ("config write", disir_config_write (in, "g", e.c_str (), g.p), DISIR_STATUS_OK); }
    std::string t; MC_CHECK (c, fs::get (d + "/c/" + e + (k ? ".toml" : ".json"), t), "file", "no file is written"); is ("query", disir_config_query (in, "g", e.c_str (), NULL), DISIR_STATUS_EXISTS); { CfgH g; is ("config read", disir_config_read (in, "g", e.c_str (), NULL, &g.p), DISIR_STATUS_OK); Cfg got; std::string er; MC_CHECK (c, dump_config (g.p, got, er), "dump", "%s", er.c_str ()); bool ok = false; for (auto &y : got.kids) if (y.name == "key" && y.val.s == "changed") ok = true; MC_CHECK (c, ok && got.kids.size () == 2, "read", "read back %s", mm::show (got).c_str ()); }
    disir_entry *l = NULL; is ("entries", disir_config_entries (in, "g", &l), DISIR_STATUS_OK); int n = 0; for (disir_entry *x = l, *nx; x; x = nx) { nx = x->next; n += e == x->de_entry_name; disir_entry_finished (&x); } MC_CHECK (c, n == 1, "entries", "listed %d times", n); l = NULL; is ("mold entries", disir_mold_entries (in, "g", &l), DISIR_STATUS_OK); for (disir_entry *x = l, *nx; x; x = nx) { nx = x->next; disir_entry_finished (&x); }
    is ("remove", disir_config_remove (in, "g", e.c_str ()), DISIR_STATUS_OK); is ("query after", disir_config_query (in, "g", e.c_str (), NULL), DISIR_STATUS_NOT_EXIST); MC_CHECK (c, !fs::get (d + "/c/" + e + (k ? ".toml" : ".json"), t), "file", "the file is still there"); disir_instance_destroy (&in); c.validated ();
}
static void partial (Ctx &c)
{
    static const char *OPS[] = { "config read", "config write", "config remove", "config entries", "config query", "mold read", "mold write", "mold entries", "mold query" }; int missing = c.choose (10), second = c.choose (10); if (second < missing) c.prune (); int alln = c.choose (2); std::string d = base + "/tree"; fs::mkdirs (d + "/c"); fs::mkdirs (d + "/m"); fs::clear (d + "/c"); fs::clear (d + "/m"); std::set<int> gone; if (alln) { for (int i = 0; i < 9; i++) if (i != missing && i != second) gone.insert (i); } else { gone = { missing, second }; } c.note ("operations left out:"); for (int i : gone) if (i < 9) c.note (" %s;", OPS[i]); c.note ("\n"); c.risk ("crash"); std::string key; for (int i : gone) key += strf ("%d ", i); c.state (key); c.nontrivial (key);
    disir_instance *in = NULL; disir_instance_create (NULL, NULL, &in); disir_register_plugin p; memset (&p, 0, sizeof p); p.dp_name = (char *) "n"; p.dp_description = (char *) "d"; p.dp_config_entry_type = (char *) "json"; p.dp_mold_entry_type = (char *) "json"; p.dp_config_base_id = strdup ((d + "/c").c_str ()); p.dp_mold_base_id = strdup ((d + "/m").c_str ());
    auto has = [&] (int i) { return !gone.count (i); }; if (has (0)) p.dp_config_read = dio_json_config_read; if (has (1)) p.dp_config_write = dio_json_config_write; if (has (2)) p.dp_config_remove = dio_json_config_remove; if (has (3)) p.dp_config_entries = dio_json_config_entries; if (has (4)) p.dp_config_query = dio_json_config_query; if (has (5)) p.dp_mold_read = dio_json_mold_read; if (has (6)) p.dp_mold_write = dio_json_mold_write; if (has (7)) p.dp_mold_entries = dio_json_mold_entries; if (has (8)) p.dp_mold_query = dio_json_mold_query;
    enum disir_status r = disir_plugin_register (in, &p, "io", "g"); free (p.dp_config_base_id); free (p.dp_mold_base_id); MC_CHECK (c, r == DISIR_STATUS_OK, "register", "%s", st (r)); Mold m; m.kids.push_back (MEl::kv ("key", Val::str ("x"), Ver (1, 0))); mm::MoldH mo; Steps S; build_mold (m, &mo.p, &S); fs::put (d + "/m/e.json", fs::mold_text (m)); fs::put (d + "/c/e.json", "{\"version\": \"1.0\", \"config\": {\"key\": \"here\"}}\n"); auto before = fs::snap (d); CfgH g; disir_generate_config_from_mold (mo.p, NULL, &g.p);
    auto ran = [&] (int op, enum disir_status s, std::initializer_list<int> needs, enum disir_status ok) { bool all = has (op); for (int i : needs) all = all && has (i); if (all) MC_CHECK (c, s == ok, "complete", "%s: %s (%s)", OPS[op], st (s), disir_error (in) ? disir_error (in) : ""); else if (!has (op)) MC_CHECK (c, s != ok, "left-out", "%s is left out, yet: %s", OPS[op], st (s)); disir_error_clear (in); };
    ran (8, disir_mold_query (in, "g", "e", NULL), {}, DISIR_STATUS_EXISTS); { mm::MoldH x; ran (5, disir_mold_read (in, "g", "e", &x.p), { 8 }, DISIR_STATUS_OK); } ran (4, disir_config_query (in, "g", "e", NULL), { 8 }, DISIR_STATUS_EXISTS); { CfgH x; ran (0, disir_config_read (in, "g", "e", NULL, &x.p), { 4, 5, 8 }, DISIR_STATUS_OK); }
    auto list = [&] (int op, enum disir_status s, disir_entry *l) { int n = 0; for (disir_entry *x = l, *nx; x; x = nx) { nx = x->next; n++; disir_entry_finished (&x); } if (!has (op)) MC_CHECK (c, n == 0, "left-out", "%s is left out, yet it lists %d", OPS[op], n); else if (has (8)) MC_CHECK (c, s == DISIR_STATUS_OK && n == 1, "complete", "%s: %s, %d", OPS[op], st (s), n); disir_error_clear (in); }; disir_entry *l = NULL; enum disir_status s = disir_config_entries (in, "g", &l); list (3, s, l); l = NULL; s = disir_mold_entries (in, "g", &l); list (7, s, l);
    auto after = fs::snap (d); MC_CHECK (c, fs::diff (before, after).empty (), "files", "reading changes files: %s", fs::diff (before, after).c_str ()); s = disir_config_write (in, "g", "e", g.p); ran (1, s, { 8 }, DISIR_STATUS_OK); std::string t; fs::get (d + "/c/e.json", t); if (s != DISIR_STATUS_OK) MC_CHECK (c, t.find ("here") != std::string::npos, "files", "a failing write changes the file"); s = disir_config_remove (in, "g", "e"); ran (2, s, { 8 }, DISIR_STATUS_OK); if (s != DISIR_STATUS_OK) MC_CHECK (c, fs::get (d + "/c/e.json", t), "files", "a failing remove removes the file"); ran (6, disir_mold_write (in, "g", "e", mo.p), {}, DISIR_STATUS_OK); c.outcome (strf ("%zu left out", gone.size ())); disir_instance_destroy (&in); c.validated ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C30", "model_checking", "every list of up to three plugin entries out of complete and incomplete ones naming loadable, missing, unloadable and refusing libraries, given as object and as file; missing, unreadable, malformed and invalid files and objects; no configuration; instances created after and beside each other; plugins registered directly with every function left out; a configuration written by the library itself; and the shipped plugins on real directories",
        { "plugin libraries are built by the check: recording ones and the shipped json and toml plugins", "a refused configuration object stays with the caller" }, init, nullptr };
    return mc::main (argc, argv, i, { { "lists", 4, lists }, { "files", 1, files }, { "objects", 1, objects }, { "defaults", 1, defaults }, { "twice", 2, twice }, { "direct", 2, direct }, { "written", 2, written }, { "shipped", 1, shipped }, { "partial", 2, partial } });
}
