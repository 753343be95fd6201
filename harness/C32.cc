// C32: the command line tool does what it is asked, exactly, and reports failure
// technique: exhaustive exploration of the real tool (its main in a child process): every command, option and entry list, in sequences, over every state of a small system, against a model of the files, the output and the exit status; and every import option and interactive answer against the decision table of the imports
#include "impw.h"
#include "cli.h"
#include <dlfcn.h>
extern "C" int mc_log_to_null;
typedef std::vector<std::string> Args;
static std::string conf, exports, bad_mold, wrong_mold, rootless;
static const int V = 3; // the molds on the system are at this version
static std::string words (const Args &a) { std::string r = "disir"; for (auto &x : a) r += " " + (x.size () > 60 ? x.substr (0, 20) + strf ("...(%zu)", x.size ()) : x); return r; }
static void reset_molds (bool root)
{
    for (int g = 0; g < arc::NG; g++) fs::clear (arc::molds[g]);
    auto put = [&] (int g, const char *n, const std::string &t) { std::string p = arc::molds[g] + "/" + n; fs::mkdirs (p.substr (0, p.rfind ('/'))); fs::put (p + ".json", t); };
    put (0, "a", mtext[V]); put (0, "b/c", mtext[V]); put (0, "n/__namespace", mtext[V]); put (0, "bad", bad_mold); put (0, "wrong", wrong_mold); if (root) put (0, "__namespace", mtext[V]); put (1, "a", mtext[V]);
}
static void setup (const char *s)
{
    std::map<std::string, std::string> so; const char *p = getenv ("VERIF_PLUGINS"); if (!p) { fprintf (stderr, "no plugins\n"); abort (); } std::string t = p; size_t a = 0;
    while (a < t.size ()) { size_t b = t.find (':', a); if (b == std::string::npos) b = t.size (); std::string x = t.substr (a, b - a); std::string n = x.substr (0, x.find ('=')), from = x.substr (x.find ('=') + 1), data; if ((n == "json" || n == "toml") && fs::get (from, data)) { so[n] = std::string (s) + "/" + n + ".so"; fs::put (so[n], data); if (!dlopen (so[n].c_str (), RTLD_NOW | RTLD_LOCAL)) { fprintf (stderr, "%s\n", dlerror ()); abort (); } } a = b + 1; } init (s);
    std::string r = "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n"; for (int g = 0; g < arc::NG; g++) { bool tm = arc::GROUPS[g].toml; r += strf ("[[plugin]]\ngroup_id = \"%s\"\nio_id = \"%s\"\nplugin_filepath = \"%s\"\nconfig_base_id = \"%s\"\nmold_base_id = \"%s\"\n", arc::GROUPS[g].name, tm ? "toml" : "json", so[tm ? "toml" : "json"].c_str (), arc::dir[1][g].c_str (), arc::molds[g].c_str ()); }
    conf = arc::base + "/cli.toml"; fs::put (conf, r); exports = arc::base + "/exports"; fs::mkdirs (exports);
    std::string m = mtext[V]; size_t q = m.find ("\"mold\""); q = m.find ('{', q); bad_mold = m; bad_mold.insert (q + 1, "\"zz\": { \"type\": \"INTEGER\", \"defaults\": [] }, ");
    Mold w; w.kids = { MEl::kv ("r", Val::in (3)).with (Res::range (10, 20, Ver (2, 0))) }; wrong_mold = fs::mold_text (w);
}
// ---- the model --------------------------------------------------------------------------------------------------
struct World { bool root; arc::Content c; };
enum Cover { NONE, GOOD, BAD, WRONGM };
static Cover own (int g, const std::string &e) { if (g == 1) return e == "a" ? GOOD : NONE; if (g) return NONE; return e == "a" || e == "b/c" ? GOOD : e == "bad" ? BAD : e == "wrong" ? WRONGM : NONE; }
static Cover cover (const World &w, int g, const std::string &e)
{
    Cover o = own (g, e); if (o || g || e.empty () || e.back () == '/') return o; size_t p = e.rfind ('/'); if (p == std::string::npos) return w.root ? GOOD : NONE; return e.substr (0, p + 1) == "n/" ? GOOD : NONE;
}
static std::vector<std::string> ids (const World &w, int g) { std::vector<std::string> r; for (auto &x : w.c) if (x.first.first == g) r.push_back (x.first.second); return r; }
static std::string made (int g) { return text[arc::GROUPS[g].toml][V][DEFAULTS]; }
// what the library says about a config: status, the lines of a dump and the errors of its invalid entries
struct Look { enum disir_status s; std::vector<std::string> dump, errors; std::string error; };
static std::string value (disir_context *x)
{
    std::string b (20000, '\0'); int32_t n = 0; enum disir_status s = dc_get_value (x, b.size (), &b[0], &n); if (s != DISIR_STATUS_OK) return strf ("(%s)", st (s)); return b.c_str ();
}
static void tree (disir_context *x, int indent, std::vector<std::string> &out)
{
    disir_collection *k = NULL; if (dc_get_elements (x, &k)) abort (); disir_context *e; while (dc_collection_next (k, &e) == DISIR_STATUS_OK)
    {
        const char *n = NULL; dc_get_name (e, &n, NULL); bool kv = dc_context_type (e) == DISIR_CONTEXT_KEYVAL; std::string l = std::string (indent, ' ') + n + ": " + (kv ? value (e) : ""); size_t a = 0; while (1) { size_t b = l.find ('\n', a); out.push_back (l.substr (a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; } if (!kv) tree (e, indent + 2, out); dc_putcontext (&e);
    } dc_collection_finished (&k);
}
static Look look (int g, const std::string &e, bool mold)
{
    Look l; disir_config *p = NULL; disir_mold *m = NULL; disir_error_clear (arc::in[1]); l.s = mold ? disir_mold_read (arc::in[1], arc::GROUPS[g].name, e.c_str (), &m) : disir_config_read (arc::in[1], arc::GROUPS[g].name, e.c_str (), NULL, &p); l.error = disir_error (arc::in[1]) ? disir_error (arc::in[1]) : "";
    if (p && l.s == DISIR_STATUS_OK) { disir_context *x = dc_config_getcontext (p); tree (x, 2, l.dump); dc_putcontext (&x); }
    if (l.s == DISIR_STATUS_INVALID_CONTEXT) { disir_collection *k = NULL; if (p) disir_config_valid (p, &k); else if (m) disir_mold_valid (m, &k); disir_context *x; while (k && dc_collection_next (k, &x) == DISIR_STATUS_OK) { if (dc_context_error (x)) l.errors.push_back (dc_context_error (x)); dc_putcontext (&x); } if (k) dc_collection_finished (&k); }
    if (p) disir_config_finished (&p); if (m) disir_mold_finished (&m); disir_error_clear (arc::in[1]); return l;
}
struct Want { int ok; World w; std::vector<std::string> lines, never; std::set<std::string> listed; bool lists; std::string any; };  // ok: 1, 0, or -1 for either
static int group_of (const std::string &n) { for (int g = 0; g < arc::NG; g++) if (n == arc::GROUPS[g].name) return g; return -1; }
static bool present (const World &w, int g, const std::string &e) { return w.c.count (Id (g, e)); }
static Want expect (const World &w, const Args &a)
{
    Want r; r.ok = 1; r.w = w; r.lists = false; std::string cmd = a[0]; int g = 0; bool force = false, all = false, mold = false; std::vector<std::string> es; for (size_t i = 1; i < a.size (); i++) { if (a[i] == "--group") g = group_of (a[++i]); else if (a[i] == "--force") force = true; else if (a[i] == "--all") all = true; else if (a[i] == "--mold") mold = true; else es.push_back (a[i]); }
    if (g < 0 || (all && es.size ())) { r.ok = 0; return r; } std::string head = strf ("In group %s", arc::GROUPS[g].name);
    if (cmd == "list") { r.lines.push_back (head); r.lists = true; for (auto &e : ids (w, g)) if (cover (w, g, e)) r.listed.insert (e); return r; }
    if (cmd == "remove" || cmd == "dump") if (es.size () != 1) { r.ok = 0; return r; }
    if (cmd == "remove") { if (present (w, g, es[0]) && cover (w, g, es[0])) { r.w.c.erase (Id (g, es[0])); r.lines.push_back ("Removed: " + es[0]); } else { r.ok = 0; r.never.push_back ("Removed: " + es[0]); r.any = es[0]; } return r; }
    if (cmd == "dump") { Look l = look (g, es[0], false); if (l.s != DISIR_STATUS_OK) { r.ok = 0; r.any = es[0]; return r; } r.lines.push_back (head); for (auto &x : l.dump) r.lines.push_back (x); return r; }
    if (cmd == "verify")
    {
        r.lines.push_back (head); std::set<std::string> v (es.begin (), es.end ()); if (es.empty ()) { if (!mold) for (auto &e : ids (w, g)) { if (cover (w, g, e)) v.insert (e); } else { for (const char *e : { "a", "b/c", "bad", "wrong" }) if (own (g, e)) v.insert (e); if (!g) v.insert ("n/"); if (!g && w.root) v.insert ("/"); } }
        for (auto &e : v) { Look l = look (g, e, mold); r.lines.push_back (strf ("    %s%s", l.s == DISIR_STATUS_OK ? "OK:      " : l.s == DISIR_STATUS_INVALID_CONTEXT ? "INVALID: " : "ERROR:   ", e.c_str ())); for (auto &x : l.errors) r.lines.push_back ("*" + x); if (l.error.size ()) r.lines.push_back ("*" + l.error); } r.ok = -1; return r;
    }
    if (cmd == "generate")
    {
        std::set<std::string> avail; for (const char *e : { "a", "b/c", "bad", "wrong" }) if (own (g, e) && !present (w, g, e)) avail.insert (e);
        std::set<std::string> todo; if (all) todo = avail; for (auto &e : es) { bool can = avail.count (e) || (!own (g, e) && cover (w, g, e) && !present (w, g, e)); if ((!can && !force) || e.empty () || e.back () == '/') { r.ok = 0; r.any = e; return r; } todo.insert (e); }
        if (todo.empty ()) { r.lines.push_back (head); r.lists = true; r.listed = avail; if (!g) { r.listed.insert ("n/"); if (w.root) r.listed.insert ("/"); } return r; }
        for (auto &e : todo) { if (cover (w, g, e) != GOOD) { r.ok = 0; r.any = e; r.never.push_back ("  Generated " + e); return r; } for (char ch : e) if (!strchr ("abcdefghijklmnopqrstuvwxyz0123456789_/", ch)) { r.ok = 0; return r; } r.w.c[Id (g, e)] = made (g); r.lines.push_back ("  Generated " + e); } return r;
    }
    abort ();
}
static void ended (Ctx &c, const Args &a, const cli::Out &o) { std::string d = o.died (); MC_CHECK (c, d.empty (), d.c_str (), "%s: %s\n%s", words (a).c_str (), d.c_str (), o.all ().c_str ()); }
static bool has (const cli::Out &o, const std::string &l) { if (l[0] == '*') return (o.out + o.err).find (l.substr (1)) != std::string::npos; return o.has (l); }
static Args with_conf (Args a) { a.insert (a.begin (), conf); a.insert (a.begin (), "-c"); return a; }
static void step (Ctx &c, World &w, const Args &a)
{
    Want e = expect (w, a); c.note ("%s\n", words (a).c_str ()); c.risk ("crash"); cli::Out o = cli::run (with_conf (a)); ended (c, a, o);
    std::string d = arc::diff (e.w.c, arc::content (1)); MC_CHECK (c, d.empty (), "files", "%s: %s\n%s", words (a).c_str (), d.c_str (), o.all ().c_str ());
    MC_CHECK (c, e.ok < 0 || (o.status == 0) == (e.ok == 1), "status", "%s: exit status %d\n%s", words (a).c_str (), o.status, o.all ().c_str ());
    for (auto &l : e.lines) MC_CHECK (c, has (o, l), "output", "%s: no line '%s'\n%s", words (a).c_str (), l.c_str (), o.all ().c_str ()); for (auto &l : e.never) MC_CHECK (c, !has (o, l), "output", "%s: line '%s'\n%s", words (a).c_str (), l.c_str (), o.all ().c_str ());
    if (e.ok == 0) MC_CHECK (c, (o.err + o.out).size (), "no-message", "%s: fails without a message\n%s", words (a).c_str (), o.all ().c_str ()); if (e.any.size ()) MC_CHECK (c, (o.out + o.err).find (e.any) != std::string::npos, "message", "%s: the failing entry %s is not named\n%s", words (a).c_str (), e.any.c_str (), o.all ().c_str ());
    if (e.lists) { std::set<std::string> l; for (auto &x : o.lines ()) if (!x.compare (0, 4, "    ")) l.insert (x.substr (4)); std::string x, y; for (auto &k : l) x += k + " "; for (auto &k : e.listed) y += k + " "; MC_CHECK (c, l == e.listed, "listing", "%s: lists %s, expected %s\n%s", words (a).c_str (), x.c_str (), y.c_str (), o.all ().c_str ()); }
    std::string left = arc::left (); MC_CHECK (c, left.empty (), "temporary-files", "%s leaves %s", words (a).c_str (), left.c_str ());
    c.outcome (strf ("%s: %d", a[0].c_str (), o.status)); w = e.w; c.transition (words (a), strf ("%d", o.status)); if (o.status == 0) c.nontrivial (words (a));
}
static std::vector<Args> OPS;
static void make_ops ()
{
    OPS = { { "list" }, { "list", "--group", "h" }, { "list", "--group", "nope" }, { "list", "--group", "x.y" }, { "remove", "a" }, { "remove", "n/x" }, { "remove", "none" }, { "remove", "n/" }, { "remove", "a", "--group", "h" }, { "remove", "--group", "nope", "a" }, { "remove" }, { "remove", "top" },
        { "dump", "a" }, { "dump", "n/x" }, { "dump", "none" }, { "dump", "bad" }, { "dump", "--group", "h", "a" }, { "dump" }, { "dump", "--group", "nope", "a" }, { "dump", "top" },
        { "verify" }, { "verify", "--mold" }, { "verify", "a", "n/x" }, { "verify", "--mold", "a", "bad" }, { "verify", "none" }, { "verify", "--mold", "none" }, { "verify", "--group", "h" }, { "verify", "--mold", "--group", "h" }, { "verify", "--group", "nope" }, { "verify", "--mold", "n/" }, { "verify", "b/c", "b/c" }, { "verify", "--mold", "wrong", "n/x" },
        { "generate" }, { "generate", "a" }, { "generate", "--force", "a" }, { "generate", "n/x" }, { "generate", "--force", "n/x" }, { "generate", "b/c", "a" }, { "generate", "none" }, { "generate", "--force", "none" }, { "generate", "a", "none" }, { "generate", "--force", "a", "none" }, { "generate", "bad" }, { "generate", "--force", "bad" }, { "generate", "wrong" }, { "generate", "--all" }, { "generate", "--all", "--force" }, { "generate", "--all", "a" }, { "generate", "n/" }, { "generate", "--force", "n/" }, { "generate", "top" }, { "generate", "--force", "top" }, { "generate", "n/y", "top" }, { "generate", "--group", "h", "a" }, { "generate", "--group", "h", "--all" }, { "generate", "--group", "h" }, { "generate", "--group", "h", "none" }, { "generate", "--group", "nope", "a" }, { "generate", "n/d/x" }, { "generate", "--force", "n/d/x" }, { "generate", "Up" }, { "generate", "--force", "Up" } };
}
enum { ABSENT, K_DEFAULT, K_EXTRA, K_WRONG, K_BROKEN, NKIND }; static const char *KNAME[] = { "absent", "defaults", "edited", "invalid", "malformed" };
static std::string kind_text (bool toml, int k) { return text[toml][V][k == K_DEFAULT ? DEFAULTS : k == K_EXTRA ? EXTRA : k == K_WRONG ? WRONG : BROKEN]; }
static void put (World &w, const Id &i, int k) { if (k == ABSENT) return; w.c[i] = kind_text (arc::GROUPS[i.first].toml, k); arc::store (1, i, w.c[i]); }
static bool off (Ctx &c) { if (arc::ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
static void fresh (bool root) { arc::clear_side (0); arc::clear_side (1); reset_molds (root); fs::clear (arc::tmp); fs::clear (exports); fs::clear (arc::home); fs::mkdirs (arc::home); }
static World world (Ctx &c, bool root, int a, int nx, int top, int h)
{
    World w; w.root = root; fresh (root); put (w, Id (0, "a"), a); put (w, Id (0, "n/x"), nx); put (w, Id (1, "a"), h); put (w, Id (0, "top"), top); c.note ("%sa %s, n/x %s, top %s, h:a %s\n", root ? "namespace /, " : "", KNAME[a], KNAME[nx], KNAME[top], KNAME[h]); c.state (strf ("%d%d%d%d%d", root, a, nx, top, h)); return w;
}
// one command over every state of the group it works on
static void commands (Ctx &c)
{
    if (off (c)) return; const Args &a = OPS[c.choose (OPS.size ())]; bool h = false; for (auto &x : a) h |= x == "h"; World w;
    if (h) w = world (c, true, K_EXTRA, ABSENT, ABSENT, c.choose (NKIND)); else { bool root = c.choose (2); int k = c.choose (NKIND), n = c.choose (NKIND); w = world (c, root, k, n, root ? c.choose (3) : ABSENT, c.thorough () ? c.choose (2) : 1); } step (c, w, a);
}
// sequences of commands
static void sequences (Ctx &c)
{
    if (off (c)) return; bool full = c.thorough (); bool root = full ? c.choose (2) : true; int k = full ? (int) K_EXTRA * c.choose (2) : ABSENT; World w = world (c, root, k, full ? (int) K_EXTRA * c.choose (2) : ABSENT, ABSENT, K_DEFAULT); int n = full ? 3 : 2;
    for (int i = 0; i < n; i++) { std::vector<int> v; for (size_t o = 0; o < OPS.size (); o++) if (i == n - 1 || OPS[o][0] == "remove" || OPS[o][0] == "generate") { bool h = false; for (auto &x : OPS[o]) h |= x == "h" || x == "nope" || x == "x.y"; if (!h) v.push_back (o); } step (c, w, OPS[v[c.choose (v.size ())]]); }
}
// ---- export -----------------------------------------------------------------------------------------------------
static const std::vector<Args> EXPORTS = { {}, { "a" }, { "n/x" }, { "a", "n/x" }, { "a", "a" }, { "none" }, { "a", "none" }, { "n/" }, { "n/x", "b/c" }, { "--group", "h" }, { "--group", "h", "a" }, { "--group", "h", "n/x" }, { "--group", "nope" }, { "--group", "nope", "a" }, { "--group", "x.y" } };
static bool exportable (const World &w, const Id &i) { auto x = w.c.find (i); return x != w.c.end () && (x->second == kind_text (arc::GROUPS[i.first].toml, K_DEFAULT) || x->second == kind_text (arc::GROUPS[i.first].toml, K_EXTRA)); }
// the entries an export takes, or none at all
static bool takes (const World &w, const Args &a, arc::Content &out)
{
    int g = 0; std::set<std::string> es; bool any = false; for (size_t i = 0; i < a.size (); i++) if (a[i] == "--group") { g = group_of (a[++i]); if (g < 0) return false; } else { es.insert (a[i]); any = true; } if (!any) for (auto &e : ids (w, g)) es.insert (e);
    for (auto &e : es) { if (!exportable (w, Id (g, e))) return false; out[Id (g, e)] = w.c.find (Id (g, e))->second; } return true;
}
static void holds_exactly (Ctx &c, const std::string &file, const arc::Content &want, const std::string &after)
{
    arc::clear_side (0); std::map<Id, std::string> v; std::string e = arc::import_all (arc::in[0], file, v); MC_CHECK (c, e.empty (), "archive", "after %s: %s", after.c_str (), e.c_str ()); std::string d = arc::diff (want, arc::content (0)); MC_CHECK (c, d.empty (), "archive", "after %s the archive differs: %s", after.c_str (), d.c_str ()); fs::clear (arc::tmp);
}
static void export_ (Ctx &c)
{
    static const int KA[] = { ABSENT, K_EXTRA, K_WRONG, K_BROKEN, K_DEFAULT }, FIRST[] = { 0, 1, 2, 10, 3 }; bool full = c.thorough (); if (off (c)) return; int n = c.choose (2) + 1; World w = world (c, false, KA[n == 1 || full ? c.choose (5) : 1 + c.choose (2)], c.choose (2) * K_EXTRA, ABSENT, full ? c.choose (3) : n == 1 ? c.choose (2) : (int) K_DEFAULT); std::string file = exports + "/archive.disir"; bool there = false; arc::Content in; if (full) n++;
    for (int k = 0; k < n; k++)
    {
        bool append = k && c.choose (2), cwd = !append && k == n - 1 && c.choose (2); const Args &x = EXPORTS[k == n - 1 ? c.choose (EXPORTS.size ()) : FIRST[c.choose (full ? 5 : 4)]]; Args a = { "export" }; if (append) { a.push_back ("--append"); a.push_back ("--source"); a.push_back (file); } else if (!cwd) { a.push_back ("-d"); a.push_back (exports); } for (auto &y : x) a.push_back (y);
        arc::Content add; bool ok = takes (w, x, add); if (append) { if (!there) ok = false; for (auto &i : add) if (in.count (i.first)) ok = false; }
        fs::Snap before = fs::snap (exports); c.note ("%s\n", words (a).c_str ()); c.risk ("crash"); cli::Out o = cli::run (with_conf (a), "", cwd ? exports.c_str () : NULL); ended (c, a, o); std::string d = arc::diff (w.c, arc::content (1)); MC_CHECK (c, d.empty (), "files", "%s: %s", words (a).c_str (), d.c_str ()); std::string left = arc::left (); MC_CHECK (c, left.empty (), "temporary-files", "%s leaves %s", words (a).c_str (), left.c_str ());
        bool empty = ok && add.empty (); if (empty && !append) { c.outcome (strf ("exporting nothing: %d", o.status)); there = fs::snap (exports).size (); if (there) { in.clear (); } if (o.status) MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty (), "archive", "a failing export changes %s", fs::diff (before, fs::snap (exports)).c_str ()); if (there) c.prune (); continue; }
        if (!empty) MC_CHECK (c, (o.status == 0) == ok, "status", "%s: exit status %d\n%s", words (a).c_str (), o.status, o.all ().c_str ()); c.outcome (strf ("export: %d", o.status)); c.transition (words (x), ok ? "ok" : "refused");
        if (!ok) { MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty (), "archive", "a failing export changes %s\n%s", fs::diff (before, fs::snap (exports)).c_str (), o.all ().c_str ()); MC_CHECK (c, (o.err + o.out).size (), "no-message", "%s: fails without a message", words (a).c_str ()); MC_CHECK (c, o.out.find ("successfully") == std::string::npos, "output", "claims success:\n%s", o.all ().c_str ()); continue; }
        if (append) for (auto &i : add) in[i.first] = i.second; else in = add; there = true; c.nontrivial (words (a)); for (auto &i : add) MC_CHECK (c, o.has ("    " + i.first.second), "output", "%s: %s is not listed\n%s", words (a).c_str (), i.first.second.c_str (), o.all ().c_str ());
        MC_CHECK (c, fs::snap (exports).size () == 1, "archive", "%s: %zu files", words (a).c_str (), fs::snap (exports).size ()); holds_exactly (c, file, in, words (a));
    } c.validated ();
}
// ---- import -----------------------------------------------------------------------------------------------------
static const char *MODE[] = { "--force", "--soft", "--system", "--inspect" }; static const int NMODE = 4;
struct Ask { const char *flag, *input; bool commit; }; static const Ask ASK[] = { { "--accept", "", true }, { "--dry-run", "", false }, { "--dry-run", "y\n", false }, { NULL, "y\n", true }, { NULL, "n\n", false }, { NULL, "yes\n", true }, { NULL, "maybe\n\nx\ny\n", true }, { NULL, "maybe", false }, { NULL, "", false }, { NULL, "Y\nno\ny\n", false }, { NULL, "an endless answer which is long\nn\n", false } };
static int pick (int mode, const State &s)
{
    if (s.verdict == DISIR_STATUS_NO_CAN_DO || s.verdict == DISIR_STATUS_CONFIG_INVALID) return O_NONE; bool ok = s.verdict == DISIR_STATUS_OK; return ok ? O_DO : mode == 0 ? O_FORCE : mode == 1 ? O_UPDATE : O_NONE;
}
static void imported (Ctx &c, const std::string &what, const std::vector<Entry> &es, const arc::Content &before, bool commit, const cli::Out &o, bool announced)
{
    arc::Content after = arc::content (1), want = before;
    for (auto &e : es) if (commit && e.s.resolved)
    {
        std::string got; bool ok = holds (e.id, e.s.now, got); MC_CHECK (c, ok, "content", "%s: %s: the system holds %s, expected %s\n%s", what.c_str (), show (e).c_str (), got.c_str (), mm::show (e.s.now).c_str (), o.all ().c_str ()); want[e.id] = after[e.id];
        if (!e.s.updated) MC_CHECK (c, after[e.id] == text[arc::GROUPS[e.id.first].toml][e.version][e.content], "bytes", "%s: %s: not the archived bytes", what.c_str (), show (e).c_str ());
    }
    std::string d = arc::diff (want, after); MC_CHECK (c, d.empty (), "files", "%s: %s\n%s", what.c_str (), d.c_str (), o.all ().c_str ()); std::string left = arc::left (); MC_CHECK (c, left.empty (), "temporary-files", "%s leaves %s", what.c_str (), left.c_str ()); MC_CHECK (c, fs::snap (arc::home).size () == 1, "archive", "the archive directory changed");
    if (announced)
    {
        std::map<std::string, std::vector<std::string>> said; for (auto &l : o.lines ()) { size_t p = l.find ("  archive entry "); if (p != std::string::npos && l.compare (0, 6, "error:")) { std::string id = l.substr (0, p); while (id.size () && id.back () == ' ') id.pop_back (); said[id].push_back (l); } } size_t n = 0; for (auto &x : said) n += x.second.size (); MC_CHECK (c, n == es.size (), "announcement", "%s: %zu of %zu entries are announced\n%s", what.c_str (), n, es.size (), o.all ().c_str ());
        for (auto &e : es) { std::string g = arc::GROUPS[e.id.first].name; int yes = 0, no = 0; for (auto &x : said) if (!x.first.compare (0, e.id.second.size (), e.id.second) && (x.first.size () == e.id.second.size () || x.first[e.id.second.size ()] == ' ')) for (auto &l : x.second) { bool disc = l.find ("will be discarded") != std::string::npos; (disc == !e.s.resolved && l.find ("(" + VERS[e.version].str () + ")") != std::string::npos ? yes : no)++; } MC_CHECK (c, yes, "announcement", "%s: %s is announced wrongly, it is %s\n%s", what.c_str (), show (e).c_str (), e.s.resolved ? "imported" : "discarded", o.all ().c_str ()); }
    }
    if (commit) for (auto &e : es)
    {
        bool outed = e.s.verdict == DISIR_STATUS_NO_CAN_DO || e.s.verdict == DISIR_STATUS_CONFIG_INVALID; std::string w = outed ? "Not importable:" : e.s.resolved ? "Imported:" : "Discarded:"; bool found = false; for (auto &l : o.lines ()) if (l.find (w) != std::string::npos && l.find (e.id.second) != std::string::npos) found = true; MC_CHECK (c, found, "summary", "%s: %s is not reported as '%s'\n%s", what.c_str (), show (e).c_str (), w.c_str (), o.all ().c_str ());
    }
    else MC_CHECK (c, o.out.find ("Imported:") == std::string::npos, "summary", "%s: reported as imported\n%s", what.c_str (), o.all ().c_str ());
}
static std::string prepare (Ctx &c, std::vector<Entry> &es)
{
    if (es.empty ()) { clean (); fs::clear (exports); std::vector<tar::Item> it; it.push_back ({ "metadata.toml", metadata (libdisir_version_string, { { "JSON", "g", "", "", "" } }) }); it.push_back ({ "JSON/entries.toml", "[g]\n" }); std::string p = arc::home + "/in.disir"; fs::put (p, tar::make (it)); c.note ("an archive without entries\n"); c.state ("none"); c.risk ("crash"); return p; }
    clean (); fs::clear (exports); std::vector<Arch> as; std::string r; for (auto &e : es) { place (e.id, e.y); e.s = verdict (e.version, e.content, e.y); as.push_back (arch (e)); r += show (e) + "\n"; } c.note ("%s", r.c_str ()); c.state (r); c.risk ("crash"); return archive (as);
}
static void import_mode (Ctx &c, std::vector<Entry> es, int mode, const Ask &ask)
{
    std::string file = prepare (c, es); Args a = { "import", "--archive", file, MODE[mode] }; if (ask.flag) a.push_back (ask.flag); std::string what = words (a) + " < '" + ask.input + "'"; c.note ("%s\n", what.c_str ()); arc::Content before = arc::content (1); cli::Out o = cli::run (with_conf (a), ask.input); ended (c, a, o);
    MC_CHECK (c, o.status == 0, "status", "%s: exit status %d\n%s", what.c_str (), o.status, o.all ().c_str ()); bool inspect = mode == 3;
    if (!inspect) for (auto &e : es) { int k = pick (mode, e.s); if (k) option (e.s, k, e.y.mold); c.outcome (strf ("%s %s: %s", MODE[mode], st (e.s.verdict), e.s.resolved ? e.s.updated ? "updated" : "written" : "left")); if (e.s.resolved) c.nontrivial (strf ("%s %s %d", MODE[mode], st (e.s.verdict), e.s.updated)); }
    if (inspect) for (auto &e : es) { bool found = false; for (auto &l : o.lines ()) if (!l.compare (0, e.id.second.size (), e.id.second) && l.find (std::string (" ") + arc::GROUPS[e.id.first].name + " ") != std::string::npos && l.find (VERS[e.version].str ()) != std::string::npos) found = true; MC_CHECK (c, found, "inspection", "%s: %s is not shown\n%s", what.c_str (), show (e).c_str (), o.all ().c_str ()); }
    imported (c, what, es, before, !inspect && ask.commit, o, !inspect && !(ask.flag && !strcmp (ask.flag, "--accept"))); c.transition (strf ("%s %s", MODE[mode], ask.flag ? ask.flag : ask.input), strf ("%d", o.status)); c.validated ();
}
static System system_ (Ctx &c, const Id &id, int version, int content, bool few)
{
    static const int MM[] = { 3, 1, -1, -2, -3 }; System y; y.mold = few ? c.choose (2) ? 1 : 3 : MM[c.choose (5)]; y.version = y.content = 0; y.kind = System::ABSENT; int k = c.choose (few ? 3 : y.mold < 0 ? 2 : 7);
    if (k == 1) { y.kind = System::VALID; } if (k == 2) { y.kind = System::VALID; y.version = version; y.content = content < NVALID ? content : (int) USER; } if (k == 3) { y.kind = System::VALID; y.version = y.mold; y.content = USER; } if (k == 4) y.kind = System::INVALID; if (k == 5) y.kind = System::MALFORMED; if (k == 6) { y.kind = System::VALID; y.version = 3; y.content = DEFAULTS; if (y.mold == 3) c.prune (); }
    if (y.kind == System::VALID && y.mold >= 0 && y.version > y.mold && k != 6) c.prune (); if (y.kind == System::VALID && !makes (y.version, y.content)) c.prune (); return y;
}
static Entry entry (Ctx &c, const Id &id, bool few)
{
    static const int VV[] = { 0, 1, 3 }; Entry e; e.id = id; e.version = VV[c.choose (few ? 2 : 3)]; static const int CC[] = { USER, LARGE, DEFAULTS, WRONG, BROKEN }; e.content = CC[c.choose (few ? 2 : 5)]; if (!makes (e.version, e.content)) c.prune (); e.y = system_ (c, id, e.version, e.content, few); return e;
}
static void imports (Ctx &c)
{
    if (off (c)) return; int mode = c.choose (NMODE); const Ask &ask = mode == 3 ? ASK[c.choose (2)] : ASK[c.choose (c.thorough () ? (int) (sizeof ASK / sizeof *ASK) : 5)]; Id id = c.thorough () && c.choose (2) ? Id (1, "a") : Id (0, "a"); Entry e = entry (c, id, false); import_mode (c, { e }, mode, ask);
}
static void import_answers (Ctx &c) { if (off (c)) return; int mode = c.choose (3); const Ask &ask = ASK[c.choose (sizeof ASK / sizeof *ASK)]; Entry e; e.id = Id (0, "a"); e.version = 0; e.content = USER; e.y = { 3, c.choose (2) ? System::VALID : System::ABSENT, 0, 0 }; import_mode (c, { e }, mode, ask); }
static void import_none (Ctx &c) { if (off (c)) return; int mode = c.choose (NMODE); const Ask &ask = ASK[mode == 3 ? 0 : c.choose (5)]; import_mode (c, {}, mode, ask); }
// ---- interactive import -----------------------------------------------------------------------------------------
static const char *TOKEN[] = { "i", "f", "u", "s", "d", "a", "?", "", "x", "force", "h" }; static const int NTOKEN = 11;
static const char *END[] = { "y\n", "n\n", "" };
static void interactive (Ctx &c, std::vector<Entry> es, int depth)
{
    std::string file = prepare (c, es), input; std::vector<std::string> in; size_t at = 0; bool aborted = false;
    for (int k = 0; k < depth && at < es.size () && !aborted; k++)
    {
        std::string t = TOKEN[c.choose (NTOKEN)]; input += t + "\n"; Entry &e = es[at]; bool outed = e.s.verdict == DISIR_STATUS_NO_CAN_DO || e.s.verdict == DISIR_STATUS_CONFIG_INVALID; if (t.size () != 1) continue; int opt = t == "i" ? O_DO : t == "f" ? O_FORCE : t == "u" ? O_UPDATE : t == "s" ? O_WITH : t == "d" ? O_DISCARD : 0; if (t == "a") { aborted = true; break; } if (!opt) continue;
        if (outed) { if (opt == O_DISCARD) at++; continue; } if (option (e.s, opt, e.y.mold) == DISIR_STATUS_OK) at++;
    }
    bool done = at == es.size (), commit = false; bool accept = done && c.choose (2); if (done && !accept) { int k = c.choose (3); input += END[k]; commit = !k; } if (accept) commit = true; if (aborted || !done) { for (auto &e : es) e.s.resolved = e.s.updated = false; }
    Args a = { "import", "--archive", file, "--interactive" }; if (accept) a.push_back ("--accept"); std::string shown; for (char ch : input) shown += ch == '\n' ? ' ' : ch; std::string what = words (a) + " < '" + shown + "'"; c.note ("%s\n", what.c_str ()); arc::Content before = arc::content (1); cli::Out o = cli::run (with_conf (a), input); ended (c, a, o);
    imported (c, what, es, before, commit && done, o, done && !accept); c.transition (shown, done ? "done" : "aborted"); c.outcome (strf ("interactive: %s", commit ? "committed" : done ? "refused" : "aborted")); for (auto &e : es) if (commit && e.s.resolved) c.nontrivial (shown); c.validated ();
}
static Entry scene (int k)
{
    Entry e; e.id = Id (0, "a"); e.version = 0; e.content = USER; e.y = { 3, System::ABSENT, 0, 0 };
    switch (k) { case 0: e.version = 3; break; case 1: break; case 2: e.y.kind = System::VALID; break; case 3: e.version = 3; e.y = { 3, System::VALID, 3, DEFAULTS }; break; case 4: e.content = LARGE; e.y.kind = System::VALID; break; case 5: e.content = WRONG; break; case 6: e.y.mold = -1; break; case 7: e.y = { 3, System::VALID, 0, USER }; break; case 8: e.content = LARGE; break; } return e;
}
static void import_pairs (Ctx &c)
{
    if (off (c)) return; int mode = c.choose (NMODE), same = c.choose (2); Id b = same ? Id (1, "a") : Id (0, "long/name_of_an_entry"); const Ask &ask = ASK[mode == 3 ? 0 : same ? 3 : c.choose (2)]; std::vector<Entry> es = { entry (c, Id (0, "a"), true) }; static const int S[] = { 0, 2, 5, 1 }; Entry f = c.thorough () ? entry (c, b, true) : scene (S[c.choose (4)]); f.id = b; es.push_back (f); import_mode (c, es, mode, ask);
}
static void import_interactive (Ctx &c) { if (off (c)) return; Entry e = scene (c.choose (9)); interactive (c, { e }, c.thorough () ? 3 : 2); }
static void import_interactive_pairs (Ctx &c) { if (off (c)) return; static const int S[] = { 0, 2, 5, 1 }; Entry e = scene (S[c.choose (4)]), f = scene (S[c.choose (4)]); f.id = Id (1, "b"); interactive (c, { e, f }, c.thorough () ? 4 : 2); }
// ---- values that are dumped ------------------------------------------------------------------------------------
static void dump_values (Ctx &c)
{
    if (off (c)) return; int g = c.choose (2); static const size_t N[] = { 0, 1, 1022, 1023, 1024, 1025, 2048, 9000 }; std::string a, b; int k = c.choose (14); if (k < 8) { for (size_t i = 0; i < N[k]; i++) a += 'a' + i % 26; } else { static const char *S[] = { "%s %n %d", "one\ntwo\n\nfour", " leading and trailing ", "quote \" and \\ and '", "t: looks like an entry", "\xc3\xa9\xe2\x82\xac" }; a = S[k - 8]; }
    int two = c.choose (3); if (two) b = two == 1 ? "second" : std::string (1500, 'z'); World w; w.root = false; fresh (false); Cfg x = cfg (V, DEFAULTS); std::vector<CEl> kk; for (auto &e : x.kids) if (e.name != "t") kk.push_back (e); kk.push_back (CEl::kv ("t", Val::str (a))); if (two) kk.push_back (CEl::kv ("t", Val::str (b))); if (c.choose (2)) kk.push_back (CEl::section ("s", { CEl::kv ("b", Val::bo (true)) })); x.kids = kk; Id id (g, "a"); w.c[id] = text_of (arc::GROUPS[g].toml, x); arc::store (1, id, w.c[id]);
    c.note ("t of %zu characters%s\n", a.size (), two ? " and another" : ""); c.state (strf ("%d %d %d %zu", g, k, two, kk.size ())); c.nontrivial (strf ("%d %d", g, k)); c.validated (); step (c, w, { "dump", "--group", arc::GROUPS[g].name, "a" });
}
// ---- arguments --------------------------------------------------------------------------------------------------
static void arguments (Ctx &c)
{
    if (off (c)) return; static const char *CMD[] = { "list", "generate", "verify", "dump", "export", "import", "remove" }; fresh (true); World w; w.root = true; put (w, Id (0, "a"), K_EXTRA); put (w, Id (1, "a"), K_DEFAULT); int kind = c.choose (5); Args a; int ok = 0; std::string say; bool conf_ = true; std::string L (c.choose (2) ? 300 : 60, 'z');
    if (kind == 0) { const char *cmd = CMD[c.choose (7)]; static const char *H[] = { "--help", "-h" }; a = { cmd, H[c.choose (2)] }; if (c.choose (2)) a.insert (a.begin () + 1, "--group"), a.insert (a.begin () + 2, "g"); if (a.size () > 2 && !strcmp (cmd, "import")) ok = 0; else { ok = 1; say = std::string ("disir ") + cmd; } }
    else if (kind == 1) { const char *cmd = CMD[c.choose (7)]; static const char *B[] = { "--nope", "-x", "--group", "--group=", "--force=1", "--nope=3", "-Z1", "--al" }; std::string bad = B[c.choose (8)]; a = { cmd }; if (c.choose (2)) a.push_back ("a"); a.push_back (bad); if (bad == "--force=1" && strcmp (cmd, "generate") && strcmp (cmd, "import")) say = ""; }
    else if (kind == 2) { static const std::vector<Args> G = { {}, { "--help" }, { "-h" }, { "--version" }, { "-v" }, { "-V" }, { "--nope" }, { "-x", "list" }, { "lst" }, { "gnerate", "a" }, { "nothing" }, { "" }, { "LIST" }, { "-V", "list" }, { "--verbose", "dump", "a" }, { "--version", "list" }, { "-h", "list" }, { "--", "list" }, { "exprt" }, { L } }; const Args &x = G[c.choose (G.size ())]; a = x; ok = x.empty () || x[0] == "--help" || x[0] == "-h" || x[0] == "--version" || x[0] == "-v" || x[0] == "-V" || x[0] == "--verbose"; if (!ok && (a[0] == "" || a[0] == "--")) ok = -1; if (ok == 1 && a.size () && (a[0] == "--version" || a[0] == "-v")) say = libdisir_version_string; if (a.size () == 1 && a[0] == "lst") say = "        list"; if (a.size () && a[0] == "gnerate") say = "        generate"; if (a.size () && a[0] == "exprt") say = "        export"; if (a.size () && a[0] == "nothing") say = "nothing"; if (a.size () == 2 && ok == 1 && a[1] == "list" && a[0] == "-V") say = "    a\n"; }
    else if (kind == 3) { static const std::vector<Args> I = { { "import" }, { "import", "--archive" }, { "import", "--force" }, { "import", "--archive", "/nonexistent.disir" }, { "import", "--archive", "/nonexistent.disir", "--force" }, { "import", "--archive", "@", "--force", "--soft" }, { "import", "--archive", "@", "--force", "--accept", "--dry-run" }, { "import", "--archive", "@", "--force", "extra" }, { "import", "--archive", "@", "--inspect" }, { "import", "--archive", "", "--inspect" }, { "export", "--append", "a" }, { "export", "--source", "@", "--append", "a" }, { "export", "-d", "/nonexistent", "a" }, { "export", "--dest", "@", "a" }, { "generate", "--libdisir" }, { "verify", "--text-mold" }, { "verify", "--text-mold", "/nonexistent.json" }, { "verify", "--text-mold", "@" }, { "verify", "--text-mold", "" } }; a = I[c.choose (I.size ())]; fs::mkdirs (arc::home); fs::put (arc::home + "/junk.disir", "junk"); if (a[0] == "verify" && a.size () == 3) ok = -1; for (auto &x : a) if (x == "@") x = arc::home + "/junk.disir"; }
    else { static const char *CF[] = { "malformed", "absent", "unknown group", "no plugins" }; int k = c.choose (4); static const Args X[] = { { "list" }, { "dump", "a" }, { "generate" }, { "generate", "a" }, { "remove", "a" }, { "verify" }, { "export" }, { "import", "--archive", "/none", "--force" }, { "nothing" } }; a = X[c.choose (9)]; std::string f = arc::home + "/conf.toml"; fs::mkdirs (arc::home); if (k != 1) fs::put (f, k == 0 ? "[[plugin" : k == 2 ? "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n[[plugin]]\nio_id = \"x\"\n" : "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n"); c.note ("configuration: %s\n", CF[k]); a.insert (a.begin (), f); a.insert (a.begin (), "-c"); conf_ = false; ok = k == 0 || k == 2 ? 0 : -1; }
    c.note ("%s\n", words (a).c_str ()); c.state (words (a)); c.risk ("crash"); fs::Snap before = fs::snap (arc::base); cli::Out o = cli::run (conf_ ? with_conf (a) : a, "", exports.c_str ()); ended (c, a, o); fs::Snap after = fs::snap (arc::base); std::string d = fs::diff (before, after); MC_CHECK (c, d.empty (), "files", "%s: %s\n%s", words (a).c_str (), d.c_str (), o.all ().c_str ());
    MC_CHECK (c, ok < 0 || (o.status == 0) == (ok == 1), "status", "%s: exit status %d\n%s", words (a).c_str (), o.status, o.all ().c_str ()); MC_CHECK (c, (o.out + o.err).size (), "no-message", "%s: no output, exit status %d", words (a).c_str (), o.status); if (say.size ()) MC_CHECK (c, (o.out + o.err).find (say) != std::string::npos, "output", "%s: no '%s' in\n%s", words (a).c_str (), say.c_str (), o.all ().c_str ()); c.transition (strf ("%d", kind), strf ("%d", o.status)); c.outcome (strf ("%d: %d", kind, o.status)); c.nontrivial (words (a));
}
// ---- names of any length and form -------------------------------------------------------------------------------
static void names (Ctx &c)
{
    if (off (c)) return; World w; w.root = c.choose (2); fresh (w.root); put (w, Id (0, "a"), K_EXTRA); static const size_t N[] = { 200, 250, 255, 256, 1024, 4080, 4095, 4096, 4097, 5000, 20000 }; size_t n = N[c.choose (11)]; int form = c.choose (4); std::string l (n, 'q'), id = form == 0 ? l : form == 1 ? "n/" + l : form == 2 ? l + "/x" : ""; if (form == 3) { while (id.size () < n) id += "n/"; id += "x"; }
    static const char *CMD[] = { "generate", "generate", "verify", "verify", "dump", "export", "remove" }; static const char *FLAG[] = { NULL, "--force", NULL, "--mold", NULL, NULL, NULL }; int k = c.choose (7); Args a = { CMD[k] }; if (FLAG[k]) a.push_back (FLAG[k]); if (!strcmp (CMD[k], "export")) { a.push_back ("-d"); a.push_back (exports); } a.push_back (id);
    c.note ("%s\n", words (a).c_str ()); c.state (strf ("%zu %d %d %d", n, form, k, w.root)); c.risk ("crash"); cli::Out o = cli::run (with_conf (a)); ended (c, a, o); arc::Content got = arc::content (1); bool wrote = got.size () > w.c.size (); if (wrote) MC_CHECK (c, !strcmp (CMD[k], "generate") && got.count (Id (0, id)) && got[Id (0, id)] == made (0) && o.status == 0 && n <= 251, "files", "%s: writes something else\n%s", words (a).c_str (), o.all ().c_str ()); got.erase (Id (0, id)); std::string d = arc::diff (w.c, got); MC_CHECK (c, d.empty (), "files", "%s: %s", words (a).c_str (), d.c_str ());
    if (!strcmp (CMD[k], "generate")) MC_CHECK (c, (o.status == 0) == wrote, "status", "%s: exit status %d\n%s", words (a).c_str (), o.status, o.all ().c_str ()); else if (strcmp (CMD[k], "verify")) MC_CHECK (c, o.status != 0, "status", "%s: exit status %d\n%s", words (a).c_str (), o.status, o.all ().c_str ()); c.outcome (strf ("%s: %d", CMD[k], o.status)); c.transition (strf ("%d %zu", form, n), CMD[k]); if (wrote) c.nontrivial (strf ("%d %zu", form, n)); c.validated ();
}
// ---- a mold from a file; the configuration of the library itself ------------------------------------------------
static void text_mold (Ctx &c)
{
    if (off (c)) return; fresh (false); std::string d = exports + "/m"; fs::mkdirs (d + "/n"); fs::mkdirs (d + "/e"); int kind = c.choose (5), over = c.choose (3), place = c.choose (3); static const char *KN[] = { "valid", "invalid", "malformed", "absent", "empty" }; std::string text = kind == 0 ? mtext[V] : kind == 1 ? bad_mold : kind == 2 ? "{" : ""; std::string f = d + (place == 0 ? "/a.json" : place == 1 ? "/n/__namespace.json" : "/a"); if (kind != 3) fs::put (f, text);
    std::string of = d + "/a.o.json"; if (over) fs::put (of, over == 1 ? "{ \"mold_override\": { } }" : "{"); c.note ("%s mold %s, override %d\n", KN[kind], f.c_str (), over); c.state (strf ("%d %d %d", kind, over, place)); c.risk ("crash"); Args a = { "verify", "--text-mold", f }; fs::Snap before = fs::snap (exports); cli::Out o = cli::run (with_conf (a)); ended (c, a, o); MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty (), "files", "files change");
    c.outcome (strf ("%s: %d", KN[kind], o.status)); bool says = o.has ("    OK:      " + f), inv = o.has ("    INVALID: " + f); MC_CHECK (c, !says || kind == 0, "output", "a mold that is %s is reported as valid\n%s", KN[kind], o.all ().c_str ()); if (kind == 0 && place == 0 && !over) MC_CHECK (c, says, "output", "a valid mold is not reported as such\n%s", o.all ().c_str ()); if (kind == 1 && place == 0 && !over) MC_CHECK (c, inv, "output", "an invalid mold is not reported as such\n%s", o.all ().c_str ()); c.transition (KN[kind], strf ("%d", o.status)); c.nontrivial (strf ("%d %d", kind, place)); c.validated ();
}
// an override by its path, over a mold of its own or that of the namespace
static void text_override (Ctx &c)
{
    if (off (c)) return; fresh (false); std::string d = exports + "/m"; fs::mkdirs (d); int own = c.choose (3), ns = c.choose (3), over = c.choose (4), ask = c.choose (2), how = c.choose (4); static const char *KN[] = { "no", "a valid", "a malformed" }, *ON[] = { "no", "a valid", "an empty", "a malformed" };
    auto mold = [&] (const char *n, int k) { if (k) fs::put (d + n, k == 1 ? mtext[V] : "{"); }; mold ("/a.json", own); mold ("/__namespace.json", ns); if (over) fs::put (d + "/a.o.json", over == 1 ? "{\"sync\" : [{\"namespace\" : \"1.0\", \"override\" : \"1.0\"}],\n \"override\" : {}}" : over == 2 ? "" : "{");
    static const char *HOW[] = { "its full path", "its name in its directory", "its name after ./", "its path from the directory above" }; std::string name = ask ? "a.o.json" : "a.json", f = how == 0 ? d + "/" + name : how == 1 ? name : how == 2 ? "./" + name : "m/" + name, cwd = how == 3 ? exports : d; Args a = { "verify", "--text-mold", f }; c.note ("%s own mold, %s namespace mold, %s override, verify %s by %s\n", KN[own], KN[ns], ON[over], ask ? "the override" : "the mold", HOW[how]); c.state (strf ("%d %d %d %d %d", own, ns, over, ask, how)); c.risk ("crash"); fs::Snap before = fs::snap (exports); cli::Out o = cli::run (with_conf (a), "", how ? cwd.c_str () : NULL); ended (c, a, o); MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty (), "files", "files change");
    bool good = (own ? own : ns) == 1 && (!ask || over == 1), says = o.has ("    OK:      " + f); MC_CHECK (c, says == good, "output", "it is %sreported as valid\n%s", says ? "" : "not ", o.all ().c_str ()); if (!own && !ns) MC_CHECK (c, o.status != 0, "status", "exit status 0 without a mold\n%s", o.all ().c_str ()); c.outcome (strf ("%d: %d", good, o.status)); c.transition (strf ("%d %d %d", own, ns, over), strf ("%d %d %d", ask, how, o.status)); if (good) c.nontrivial (strf ("%d %d %d %d %d", own, ns, over, ask, how)); c.validated ();
}
// paths of any shape
static void text_paths (Ctx &c)
{
    static const std::vector<std::string> P = { "", ".", "..", "/", "a", "a.", ".json", ".o.json", "o.json", ".o", "a.o", "a.o.", "/.o.json", "@/.json", "@/.o.json", "@/", "@", "@/a", "@/x.d/a", "@/x.d/a.json", "@/a." + std::string (126, 's'), "@/a." + std::string (127, 's'), "@/a." + std::string (200, 's'), "@/a.o." + std::string (200, 's'), "@/" + std::string (250, 'l') + ".json", "@/" + std::string (300, 'l') + ".json", std::string (4094, 'l'), std::string (4095, 'l'), std::string (4096, 'l'), std::string (4080, 'l') + ".json", std::string (4095 - 5, 'l') + ".json", std::string (4096 - 5, 'l') + ".json", std::string (9000, 'l') + ".json", std::string (5000, 'l') + ".o.json", "." + std::string (5000, 's'), std::string (4000, '/') + "a.json", std::string (5000, '/') + ".o.json" };
    if (off (c)) return; fresh (false); std::string d = exports + "/m", f = P[c.choose (P.size ())]; fs::mkdirs (d + "/x.d"); if (f[0] == '@') { std::string rest = f.substr (1); f = d + rest; if (c.choose (2) && rest.size () > 1 && rest.size () < 250 && rest != "/") fs::put (f, mtext[V]); }
    Args a = { "verify", "--text-mold", f }; c.note ("%s...\n", quote (f).substr (0, 100).c_str ()); c.state (f); c.nontrivial (f); c.risk ("crash"); fs::Snap before = fs::snap (exports); cli::Out o = cli::run (with_conf (a)); ended (c, a, o); MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty (), "files", "files change"); bool is = before.count ("m" + f.substr (std::min (f.size (), d.size ()))) && f.size () > d.size () + 1 && before["m" + f.substr (d.size ())] != "/"; MC_CHECK (c, o.has ("    OK:      " + f) == is || f.find (".o.") != std::string::npos, "output", "a mold that is %sthere\n%s", is ? "" : "not ", o.all ().c_str ()); c.outcome (strf ("%d", o.status)); c.transition (f, strf ("%d", o.status)); c.validated ();
}
static void libdisir (Ctx &c)
{
    if (off (c)) return; fresh (false); int where = c.choose (4); std::string f = exports + (where == 0 ? "/lib.toml" : where == 1 ? "/no/lib.toml" : where == 2 ? "" : "/there.toml"); if (where == 3) fs::put (f, "before"); c.note ("generate --libdisir %s\n", f.c_str ()); c.state (f); c.risk ("crash"); Args a = { "generate", "--libdisir", f }; fs::Snap before = fs::snap (exports); cli::Out o = cli::run (with_conf (a)); ended (c, a, o); bool ok = where == 0 || where == 3; c.outcome (strf ("%d: %d", where, o.status)); c.nontrivial (strf ("%d", where)); c.transition ("libdisir", strf ("%d", o.status));
    MC_CHECK (c, (o.status == 0) == ok, "status", "exit status %d\n%s", o.status, o.all ().c_str ()); if (!ok) { MC_CHECK (c, fs::diff (before, fs::snap (exports)).empty () && o.err.size (), "files", "a failing command changes files"); return; } std::string t; MC_CHECK (c, fs::get (f, t) && t != "before" && fs::snap (exports).size () == 1, "files", "no file is written"); disir_mold *lm = NULL; disir_libdisir_mold (&lm); disir_config *g = NULL; enum disir_status s = disir_libdisir_config_from_disk (arc::in[1], f.c_str (), lm, &g); MC_CHECK (c, (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT) && g, "read-back", "%s", st (s)); disir_config_finished (&g); disir_mold_finished (&lm); c.validated ();
}
int main (int argc, char **argv)
{
    make_ops ();
    Info i = { "C32", "model_checking", "every command with each list of entries and options over every state (absent, default, changed, invalid, malformed) of entries under an own mold, a namespace mold and the top-level namespace, with and without it, and with invalid molds; every sequence of two (thorough three) commands; every pair of exports, fresh or appended, of each entry list; every import mode and consent over every archived version and content against every system mold and entry, two entries at once, also of the same name in two groups, and none; every sequence of up to two (thorough three) interactive answers, cut off anywhere, for each verdict; unknown, missing and contradicting arguments; entry names up to 20000 characters; values around the size of buffers; molds from files, with overrides, under full and relative, long and differently spelled paths; the library's own configuration",
        { "the tool's main runs in a child process of the check, with the shipped json and toml plugins built by the check", "the tool's wording is only checked for entry names, versions, reasons, verdicts and the announced effect", "whether verify exits non-zero for invalid entries is left open" }, setup, nullptr };
    return mc::main (argc, argv, i, { { "commands", 2, commands, false, 60 }, { "sequences", 2, sequences, false, 60 }, { "export", 3, export_, false, 60 }, { "imports", 3, imports, false, 60 }, { "import-pairs", 3, import_pairs, false, 60 }, { "import-answers", 2, import_answers, false, 60 }, { "import-none", 1, import_none, false, 60 }, { "interactive", 2, import_interactive, false, 60 }, { "interactive-pairs", 3, import_interactive_pairs, false, 60 },
        { "dump-values", 2, dump_values, false, 60 }, { "arguments", 2, arguments, false, 60 }, { "names", 2, names, false, 60 }, { "text-mold", 1, text_mold, false, 60 }, { "text-override", 2, text_override, false, 60 }, { "text-paths", 1, text_paths, false, 60 }, { "libdisir", 1, libdisir, false, 60 } });
}
