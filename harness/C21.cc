// C21: mold lookup and listing agree and follow the namespace rules
// technique: exhaustive enumeration of directory layouts (every subset of mold, override, namespace and foreign files over three directories) on the real instance, every entry id read, queried and compared with the listing and with a reference resolution
#include "fs.h"
#include "types.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::string base, MO, CF; static disir_instance *in;
struct File { const char *rel, *dir, *name; int kind; };      // own mold, override, namespace, foreign
enum { OWN, OVER, NS, JUNK };
static const File F[] = { { "a.json", "", "a", OWN }, { "a.o.json", "", "a", OVER }, { "__namespace.json", "", "", NS }, { "d/a.json", "d/", "a", OWN }, { "d/a.o.json", "d/", "a", OVER }, { "d/__namespace.json", "d/", "", NS }, { "d/e/a.json", "d/e/", "a", OWN }, { "d/e/a.o.json", "d/e/", "a", OVER }, { "d/e/__namespace.json", "d/e/", "", NS },
    { "d.json", "", "d", OWN }, { "d/__namespace.o.json", "", "", JUNK }, { "d/A.json", "", "", JUNK }, { "d/a.jso", "", "", JUNK }, { "d/ab.o.json", "d/", "ab", OVER } };
enum { NF = sizeof F / sizeof *F };
static const char *ID[] = { "a", "b", "d", "d/a", "d/b", "d/ab", "d/e", "d/e/a", "d/e/b", "/", "d/", "d/e/", "x/a", "x/" };
static std::string text[NF]; static Mold model_of[NF]; static disir_config *cfg;
static void init (const char *s)
{
    base = s; MO = base + "/m"; CF = base + "/c"; fs::mkdirs (MO); fs::mkdirs (CF + "/d/e"); fs::mkdirs (CF + "/x"); Mold any; any.kids = { MEl::kv ("k", Val::in (0)) }; disir_mold *m; Steps S; build_mold (any, &m, &S); Cfg g; g.v = Ver (1, 0); g.kids = { CEl::kv ("k", Val::in (1)) }; if (build_config (g, m, &cfg, &S)) abort ();
    for (int i = 0; i < NF; i++)
        if (F[i].kind == OVER) text[i] = strf ("{\"sync\" : [{\"namespace\" : \"1.0\", \"override\" : \"1.0\"}], \"override\" : {\"k\" : {\"version\" : \"1.0\", \"value\" : %d}}}", 100 + i);
        else if (F[i].kind == JUNK) text[i] = "{}"; else { model_of[i].docs = { { Ver (1, 0), F[i].rel } }; model_of[i].kids = { MEl::kv ("k", Val::in (i)) }; text[i] = fs::mold_text (model_of[i]); }
    // configs under ids that may or may not have a mold
    in = fs::empty (); fs::attach (in, false, CF, MO, "g"); disir_instance *w = fs::empty (); std::string wm = base + "/w"; fs::mkdirs (wm); for (const char *n : { "a", "b", "d", "d/a", "d/e/b", "x/a" }) { fs::mkdirs (wm + "/d/e"); fs::mkdirs (wm + "/x"); fs::put (wm + "/" + n + ".json", text[0]); } fs::attach (w, false, CF, wm, "g");
    for (const char *n : { "a", "b", "d", "d/a", "d/e/b", "x/a" }) if (disir_config_write (w, "g", n, cfg)) abort (); disir_instance_destroy (&w);
}
static int file (int mask, const std::string &dir, const std::string &name, int kind) { for (int i = 0; i < NF; i++) if ((mask >> i & 1) && F[i].kind == kind && dir == F[i].dir && name == F[i].name) return i; return -1; }
struct Want { int mold, over; bool ns; };
static Want resolve (int mask, const std::string &id)
{
    size_t s = id.rfind ('/'); std::string dir = s == std::string::npos || s == 0 ? "" : id.substr (0, s + 1), name = s == std::string::npos ? id : id.substr (s + 1); Want w = { -1, -1, false };
    int own = name.empty () ? -1 : file (mask, dir, name, OWN); w.over = name.empty () ? -1 : file (mask, dir, name, OVER); w.mold = own >= 0 ? own : file (mask, dir, "", NS); w.ns = own < 0 && w.mold >= 0 && w.over < 0; return w;
}
typedef std::map<std::string, unsigned> List;
static std::string show (const List &l) { std::string r; for (auto &x : l) r += x.first + (x.second & 1 ? "(namespace)" : "") + (x.second & 2 ? "(override)" : "") + (x.second & 4 ? "(not readable and writable)" : "") + " "; return r; }
static unsigned flags (disir_entry *e) { return (e->flag.DE_NAMESPACE_ENTRY ? 1 : 0) | (e->flag.DE_OVERRIDE ? 2 : 0) | (e->flag.DE_READABLE && e->flag.DE_WRITABLE ? 0 : 4); }
template <class Fn> static List list (Ctx &c, Fn fn, const char *what)
{
    disir_entry *e = NULL; enum disir_status s = fn (in, "g", &e); List l; std::string twice; for (disir_entry *n; e; e = n) { n = e->next; if (!l.insert ({ e->de_entry_name, flags (e) }).second) twice = e->de_entry_name; disir_entry_finished (&e); }
    MC_CHECK (c, s == DISIR_STATUS_OK, "list", "%s: %s", what, st (s)); MC_CHECK (c, twice.empty (), "listed-twice", "%s gives %s twice", what, twice.c_str ()); return l;
}
static void layout (Ctx &c, int mask, int links, bool types)
{
    fs::clear (MO); no_types = false; std::string away = base + "/away"; fs::mkdirs (away); fs::clear (away);
    for (int i = 0; i < NF; i++) if (mask >> i & 1) { std::string p = MO + "/" + F[i].rel; fs::mkdirs (p.substr (0, p.rfind ('/'))); bool l = links >> i & 1; if (l) { std::string t = away + strf ("/%d", i); fs::put (t, text[i]); if (symlink (t.c_str (), p.c_str ())) abort (); } else fs::put (p, text[i]); c.note ("%s%s\n", F[i].rel, l ? ", a symbolic link" : ""); }
    if (!types) c.note ("the directory does not tell the types of its entries\n"); no_types = !types;
    disir_error_clear (in); c.risk ("crash");
    for (const char *id : ID)
    {
        Want w = resolve (mask, id); disir_entry *e = NULL; enum disir_status s = disir_mold_query (in, "g", id, &e); unsigned fl = e ? flags (e) : 0, want = (w.ns ? 1 : 0) | (w.over >= 0 ? 2 : 0); std::string name = e ? e->de_entry_name : ""; bool has = e; if (e) disir_entry_finished (&e);
        MC_CHECK (c, s == (w.mold >= 0 ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST) && has == (w.mold >= 0), "query", "querying %s, whose mold is %s: %s", id, w.mold >= 0 ? F[w.mold].rel : "missing", st (s));
        if (has) MC_CHECK (c, name == id && fl == want, "query-entry", "querying %s gives %s, flags %u, expected %u", id, name.c_str (), fl, want);
        disir_mold *p = NULL; s = disir_mold_read (in, "g", id, &p);
        if (w.mold < 0) { MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !p, "read-missing", "reading %s, which has no mold: %s", id, st (s)); }
        else
        {
            MoldH q; q.p = p; MC_CHECK (c, s == DISIR_STATUS_OK && p, "read", "reading %s from %s: %s (%s)", id, F[w.mold].rel, st (s), disir_error (in)); Mold got, exp = model_of[w.mold]; if (w.over >= 0) exp.kids[0].defs[0].val = Val::in (100 + w.over);
            static const std::vector<Ver> pv = { Ver (1, 0) }; std::string err; MC_CHECK (c, dump_mold (p, got, pv, err), "dump", "%s", err.c_str ()); std::string a = mm::show (canon (got, pv)), b = mm::show (canon (exp, pv)); MC_CHECK (c, a == b, "read-content", "reading %s gives %s, expected %s", id, a.c_str (), b.c_str ());
        }
    }
    // the listing names exactly the files' entries, and every one of them is there
    List want; for (int i = 0; i < NF; i++) if (mask >> i & 1)
    {
        if (F[i].kind == JUNK) continue; std::string id = std::string (F[i].dir) + F[i].name; if (id.empty ()) id = "/"; Want w = resolve (mask, id); if (w.mold < 0) continue; want[id] = (F[i].kind == NS ? 1 : 0) | (w.over >= 0 ? 2 : 0);
    }
    List got = list (c, disir_mold_entries, "listing the molds"); MC_CHECK (c, got == want, "list-content", "listing the molds gives %s\nexpected %s", show (got).c_str (), show (want).c_str ());
    List cw; for (const char *n : { "a", "b", "d", "d/a", "d/e/b", "x/a" })
    {
        Want w = resolve (mask, n); disir_entry *e = NULL; enum disir_status s = disir_config_query (in, "g", n, &e); unsigned fl = (w.ns ? 1 : 0) | (w.over >= 0 ? 2 : 0); bool ok = e ? flags (e) == fl : true; bool has = e; if (e) disir_entry_finished (&e); if (w.mold >= 0) cw[n] = fl;
        MC_CHECK (c, s == (w.mold >= 0 ? DISIR_STATUS_EXISTS : DISIR_STATUS_MOLD_MISSING) && has == (w.mold >= 0) && ok, "config-query", "querying the config %s, whose mold is %s: %s", n, w.mold >= 0 ? F[w.mold].rel : "missing", st (s));
    }
    List cg = list (c, disir_config_entries, "listing the configs"); MC_CHECK (c, cg == cw, "config-list", "listing the configs gives %s\nexpected %s", show (cg).c_str (), show (cw).c_str ());
    no_types = false; disir_error_clear (in); std::string key = strf ("%d %d %d", mask, links, types); c.state (key); c.nontrivial (key); c.outcome (show (want)); c.validated ();
}
static void layouts (Ctx &c) { int mask = 0; for (int i = 0; i < NF; i++) mask |= (int) c.choose (2) << i; layout (c, mask, 0, true); }
// the same where files are symbolic links and where the directory does not provide types
static void linked (Ctx &c)
{
    int mask = 0, links = 0, n = 0; for (int i = 0; i < NF; i++) { int k = c.choose (3); if (k && ++n > (c.thorough () ? 5 : 3)) c.prune (); if (k) mask |= 1 << i; if (k == 2) links |= 1 << i; } bool types = c.choose (2); if (types && !links) c.prune (); layout (c, mask, links, types);
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C21", "exploration",
        "Every subset of fourteen files: own molds, override documents and namespace molds in a directory, a directory below and one below that, a mold beside a directory of the same name, an override without own mold, and files that are no entries; for each, fourteen entry ids queried and read, and the molds and the stored configs listed; and every subset of up to three of them (thorough: five), each a file or a symbolic link to one, in directories with and without the types of their entries.",
        { "override documents and molds are well formed (C12, C17)", "listings do not follow symbolic links to directories" }, init, NULL };
    return mc::main (argc, argv, i, { { "layouts", 4, layouts }, { "linked", 5, linked } });
}
