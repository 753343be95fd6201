// C22: requests reach the right plugin of the right group
// technique: exhaustive enumeration of plugin registrations (groups, answers, missing functions) and requests on the real instance with recording plugins, plus exhaustive operation sequences over storing plugins against a map model
#include "rt.h"
#include "fs.h"
#include "sys.h"
#include <disir/archive.h>
#include <map>
#include <set>
#include <disir/plugin.h>
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
enum Op { QUERY, READ, WRITE, REMOVE, ENTRIES, NOPS };
static const char *ON[] = { "query", "read", "write", "remove", "entries" };
struct Call { int plugin, op; bool mold; std::string id; const void *in, *arg; };
static std::vector<Call> *calls; static disir_instance *inst; static const void *CFG = (void *) 0x1000, *MOLD = (void *) 0x2000;
struct Store { std::map<std::string, void *> m[2]; };
struct Fake { int group; int has[2][NOPS]; enum disir_status ret[2][NOPS]; std::vector<std::string> list[2]; bool failOut; bool storing; Store s; };
static Fake F[5]; static const char *GRP[] = { "G", "H", "G " };
static int which (disir_register_plugin *p) { return (int) (long) p->dp_storage - 1; }
static disir_entry *mk (const std::string &name, int attr) { disir_entry *e = (disir_entry *) calloc (1, sizeof *e); e->de_entry_name = strdup (name.c_str ()); e->de_attributes = attr; return e; }
static enum disir_status rec (disir_instance *i, disir_register_plugin *p, int op, bool mold, const char *id, const void *arg)
{
    int k = which (p); calls->push_back ({ k, op, mold, id ? id : "", i, arg }); return F[k].ret[mold][op];
}
template <bool M> static enum disir_status f_query (disir_instance *i, disir_register_plugin *p, const char *id, disir_entry **e)
{
    enum disir_status s = rec (i, p, QUERY, M, id, e); Fake &f = F[which (p)]; if (f.storing) s = f.s.m[M].count (id) ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST;
    if (s == DISIR_STATUS_EXISTS && e) *e = mk (id, which (p) + 1); return s;
}
static enum disir_status f_read (disir_instance *i, disir_register_plugin *p, const char *id, disir_mold *m, disir_config **c)
{
    enum disir_status s = rec (i, p, READ, false, id, m); Fake &f = F[which (p)];
    if (f.storing) { auto x = f.s.m[0].find (id); if (x == f.s.m[0].end ()) return DISIR_STATUS_NOT_EXIST; *c = (disir_config *) x->second; return DISIR_STATUS_OK; }
    if (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT) *c = (disir_config *) (0x100L + which (p)); return s;
}
static enum disir_status f_mread (disir_instance *i, disir_register_plugin *p, const char *id, disir_mold **m)
{
    enum disir_status s = rec (i, p, READ, true, id, NULL); Fake &f = F[which (p)];
    if (f.storing) { auto x = f.s.m[1].find (id); if (x == f.s.m[1].end ()) return DISIR_STATUS_NOT_EXIST; *m = (disir_mold *) x->second; return DISIR_STATUS_OK; }
    if (s == DISIR_STATUS_OK || s == DISIR_STATUS_INVALID_CONTEXT) *m = (disir_mold *) (0x100L + which (p)); return s;
}
template <bool M, class T> static enum disir_status f_write (disir_instance *i, disir_register_plugin *p, const char *id, T *c)
{
    enum disir_status s = rec (i, p, WRITE, M, id, c); Fake &f = F[which (p)]; if (f.storing) { f.s.m[M][id] = c; return DISIR_STATUS_OK; } return s;
}
static enum disir_status f_remove (disir_instance *i, disir_register_plugin *p, const char *id)
{
    enum disir_status s = rec (i, p, REMOVE, false, id, NULL); Fake &f = F[which (p)]; if (f.storing) return f.s.m[0].erase (id) ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST; return s;
}
template <bool M> static enum disir_status f_entries (disir_instance *i, disir_register_plugin *p, disir_entry **out)
{
    enum disir_status s = rec (i, p, ENTRIES, M, NULL, NULL); int k = which (p); Fake &f = F[k]; if (s != DISIR_STATUS_OK) return s;
    std::vector<std::string> l = f.list[M]; if (f.storing) for (auto &x : f.s.m[M]) l.push_back (x.first);
    disir_entry *h = NULL, *t = NULL; for (auto &n : l) { disir_entry *e = mk (n, k + 1); if (!h) h = t = e; else { t->next = e; e->prev = t; t = e; } h->prev = t; }
    *out = h; return s;
}
static int finished[5];
static enum disir_status f_fin (disir_instance *, disir_register_plugin *p) { finished[which (p)]++; return DISIR_STATUS_OK; }
static void reg (Ctx &c, int k)
{
    Fake &f = F[k]; disir_register_plugin p; memset (&p, 0, sizeof p);
    p.dp_name = (char *) "n"; p.dp_description = (char *) "d"; p.dp_config_entry_type = (char *) "c"; p.dp_mold_entry_type = (char *) "m"; p.dp_storage = (void *) (long) (k + 1); p.dp_plugin_finished = f_fin;
    if (f.has[0][QUERY]) p.dp_config_query = f_query<false>; if (f.has[1][QUERY]) p.dp_mold_query = f_query<true>;
    if (f.has[0][READ]) p.dp_config_read = f_read; if (f.has[1][READ]) p.dp_mold_read = f_mread;
    if (f.has[0][WRITE]) p.dp_config_write = f_write<false, disir_config>; if (f.has[1][WRITE]) p.dp_mold_write = f_write<true, disir_mold>;
    if (f.has[0][REMOVE]) p.dp_config_remove = f_remove; if (f.has[0][ENTRIES]) p.dp_config_entries = f_entries<false>; if (f.has[1][ENTRIES]) p.dp_mold_entries = f_entries<true>;
    std::string io = strf ("io%d", k), g = GRP[f.group]; enum disir_status s = disir_plugin_register (inst, &p, io.c_str (), g.c_str ());
    io.assign (io.size (), '#'); g.assign (g.size (), '#'); memset (&p, 0x5a, sizeof p);
    MC_CHECK (c, s == DISIR_STATUS_OK, "register", "registering plugin %d in %s: %s", k, GRP[f.group], st (s));
}
static void fresh (Ctx &c, int n)
{
    calls->clear (); memset (finished, 0, sizeof finished); static disir_mold *m; if (!m) { Mold d; Steps S; if (build_mold (d, &m, &S)) abort (); }
    disir_context *x = NULL; disir_config *g = NULL; if (dc_config_begin (m, &x) || dc_config_finalize (&x, &g)) abort ();
    enum disir_status s = disir_instance_create (NULL, g, &inst); if (s) c.fail ("create", "creating an instance: %s", st (s));
    c.risk ("register-crash"); for (int k = 0; k < n; k++) reg (c, k);
}
// destroying the instance hands every plugin its own structure to clean up, once
static void done (Ctx &c, int n)
{
    c.risk ("destroy-crash"); MC_CHECK (c, disir_instance_destroy (&inst) == DISIR_STATUS_OK && !inst, "destroy", "the instance is not destroyed");
    for (int k = 0; k < n; k++) MC_CHECK (c, finished[k] == 1, "finished", "plugin %d is finished %d times", k, finished[k]);
}
static void blank (int n) { for (int k = 0; k < n; k++) { F[k] = Fake (); } }
static std::string trail () { std::string s; for (auto &x : *calls) s += strf ("%s %s of plugin %d; ", ON[x.op], x.mold ? "mold" : "config", x.plugin); return s.empty () ? "no call" : s; }
static std::vector<int> members (int n, int g) { std::vector<int> v; for (int k = 0; k < n; k++) if (F[k].group == g) v.push_back (k); return v; }
// no call to a plugin outside the group or with foreign arguments
static void sane (Ctx &c, int g, const std::string &id, bool mold)
{
    for (auto &x : *calls)
    {
        MC_CHECK (c, F[x.plugin].group == g, "foreign", "a request for %s reaches a plugin of %s: %s", GRP[g], GRP[F[x.plugin].group], trail ().c_str ());
        MC_CHECK (c, x.in == inst && x.mold == mold && (x.op == ENTRIES || x.id == id), "arguments", "plugin %d is called for %s instead of %s", x.plugin, quote (x.id).c_str (), quote (id).c_str ());
    }
}
static const enum disir_status QA[] = { DISIR_STATUS_NOT_EXIST, DISIR_STATUS_EXISTS, DISIR_STATUS_MOLD_MISSING, DISIR_STATUS_RESTRICTION_VIOLATED };
static const enum disir_status RA[] = { DISIR_STATUS_OK, DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_FS_ERROR };
static void plugins_for_read (Ctx &c, int n, bool mold, bool reads, int answers)
{
    blank (n); for (int k = 0; k < n; k++)
    {
        Fake &f = F[k]; f.group = c.choose (2); int q = c.choose (answers + 1); f.has[mold][QUERY] = q; if (q) f.ret[mold][QUERY] = QA[q - 1];
        if (reads && q && QA[q - 1] == DISIR_STATUS_EXISTS) { int r = c.choose (answers == 4 ? 4 : 3); f.has[mold][READ] = r; if (r) f.ret[mold][READ] = RA[r == 2 && answers < 4 ? 2 : r - 1]; } else if (reads) { f.has[mold][READ] = 1; f.ret[mold][READ] = DISIR_STATUS_OK; }
        // the functions of the other kind exist and must not be called
        for (int o = 0; o < NOPS; o++) f.has[!mold][o] = 1;
        c.note ("plugin %d in group %s: %s query %s%s\n", k, GRP[f.group], mold ? "mold" : "config", q ? st (f.ret[mold][QUERY]) : "missing", reads ? strf (", read %s", f.has[mold][READ] ? st (f.ret[mold][READ]) : "missing").c_str () : "");
    }
}
static int owner (int n, int g, bool mold) { for (int k : members (n, g)) if (F[k].has[mold][QUERY] && F[k].ret[mold][QUERY] == DISIR_STATUS_EXISTS) return k; return -1; }
static void read_ (Ctx &c, int maxn, int answers)
{
    int n = c.choose (maxn + 1); bool mold = c.choose (2); plugins_for_read (c, n, mold, true, answers); int g = c.choose (3); const char *id = "d/a"; c.note ("read %s of group %s\n", id, GRP[g]);
    fresh (c, n); c.risk ("read-crash"); void *out = (void *) 0x77; bool own = c.choose (2);
    enum disir_status s = mold ? disir_mold_read (inst, GRP[g], id, (disir_mold **) &out) : disir_config_read (inst, GRP[g], id, own ? (disir_mold *) MOLD : NULL, (disir_config **) &out);
    sane (c, g, id, mold); int k = owner (n, g, mold); int reads = 0, by = -1; for (auto &x : *calls) if (x.op == READ) { reads++; by = x.plugin; if (!mold) MC_CHECK (c, x.arg == (own ? MOLD : NULL), "mold-passed", "the mold given to read does not reach the plugin"); } else MC_CHECK (c, x.op == QUERY && !x.arg, "calls", "a read calls %s", trail ().c_str ());
    if (k < 0) { MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !reads, "none-status", "no plugin of the group has the entry: %s, calls: %s", st (s), trail ().c_str ()); if (members (n, g).empty ()) MC_CHECK (c, calls->empty (), "unknown-called", "an unknown group calls %s", trail ().c_str ()); MC_CHECK (c, disir_error (inst), "no-message", "a read of a missing entry leaves no message"); c.outcome ("none"); }
    else if (!F[k].has[mold][READ]) { MC_CHECK (c, s == DISIR_STATUS_NO_CAN_DO && !reads, "missing-read", "plugin %d has the entry and cannot read: %s, calls: %s", k, st (s), trail ().c_str ()); c.outcome ("cannot"); }
    else
    {
        MC_CHECK (c, reads == 1 && by == k, "wrong-plugin", "plugin %d is the first with the entry, calls: %s", k, trail ().c_str ());
        MC_CHECK (c, s == F[k].ret[mold][READ], "read-status", "plugin %d answers %s, the read %s", k, st (F[k].ret[mold][READ]), st (s));
        if (s != DISIR_STATUS_FS_ERROR) MC_CHECK (c, out == (void *) (0x100L + k), "read-result", "the read does not return what plugin %d returned", k);
        c.outcome (k == members (n, g)[0] ? "first" : "later");
    }
    std::string key = strf ("%d%d%d", mold, g, n); for (int i = 0; i < n; i++) key += strf ("|%d%d%d%d%d", F[i].group, F[i].has[mold][QUERY], F[i].ret[mold][QUERY], F[i].has[mold][READ], F[i].ret[mold][READ]);
    c.state (key); c.nontrivial (key); c.validated (); done (c, n);
}
static void reads_ (Ctx &c) { read_ (c, 3, c.thorough () ? 4 : 3); }
static void query (Ctx &c)
{
    int n = c.choose (4); bool mold = c.choose (2), want = c.choose (2); plugins_for_read (c, n, mold, false, 4); int g = c.choose (3); const char *id = "d/a"; c.note ("query %s of group %s\n", id, GRP[g]);
    fresh (c, n); c.risk ("query-crash"); disir_entry *e = NULL; size_t h0 = heap ();
    enum disir_status s = mold ? disir_mold_query (inst, GRP[g], id, want ? &e : NULL) : disir_config_query (inst, GRP[g], id, want ? &e : NULL);
    sane (c, g, id, mold); int k = owner (n, g, mold); std::set<int> said; bool any = false; for (int i : members (n, g)) if (F[i].has[mold][QUERY]) { any = true; said.insert (F[i].ret[mold][QUERY]); }
    for (auto &x : *calls) MC_CHECK (c, x.op == QUERY, "calls", "a query calls %s", trail ().c_str ());
    MC_CHECK (c, (s == DISIR_STATUS_EXISTS) == (k >= 0), "query-exists", "the entry %s, the query says %s", k >= 0 ? strf ("is in plugin %d", k).c_str () : "is in no plugin", st (s));
    if (k < 0) { MC_CHECK (c, any ? said.count (s) : s == DISIR_STATUS_GROUP_MISSING, "query-status", "no plugin has the entry: %s", st (s)); MC_CHECK (c, !e, "query-entry", "an entry is returned for a missing id"); if (members (n, g).empty ()) MC_CHECK (c, calls->empty (), "unknown-called", "an unknown group calls %s", trail ().c_str ()); }
    else if (want) { MC_CHECK (c, e && !strcmp (e->de_entry_name, id) && e->de_attributes == (unsigned) k + 1, "query-entry", "the entry returned is not the one of plugin %d", k); }
    if (e) { disir_entry_finished (&e); MC_CHECK (c, !e, "entry-finished", "the entry is not released"); }
    (void) h0; std::string key = strf ("%d%d%d%d", mold, g, n, want); for (int i = 0; i < n; i++) key += strf ("|%d%d%d", F[i].group, F[i].has[mold][QUERY], F[i].ret[mold][QUERY]);
    c.state (key); c.nontrivial (key); c.validated (); done (c, n);
}
static void writes (Ctx &c)
{
    static const char *IDS[] = { "a", "d/a", "a/", "" }; static const int OPS[] = { WRITE, REMOVE, WRITE };
    int what = c.choose (3), n = c.choose (4); bool mold = what == 2; int op = OPS[what], g = c.choose (3); const char *id = IDS[c.choose (mold ? 2 : 4)]; blank (n);
    for (int k = 0; k < n; k++)
    {
        Fake &f = F[k]; f.group = c.choose (2); int r = c.choose (3); for (int m = 0; m < 2; m++) for (int o = 0; o < NOPS; o++) { f.has[m][o] = 1; f.ret[m][o] = o == QUERY ? DISIR_STATUS_EXISTS : DISIR_STATUS_OK; }
        f.has[mold][op] = r; if (r == 2) f.ret[mold][op] = DISIR_STATUS_FS_ERROR; int other = op == WRITE ? REMOVE : WRITE; if (c.choose (2)) f.has[0][other] = 0; if (c.thorough () && c.choose (2)) f.ret[0][QUERY] = f.ret[1][QUERY] = DISIR_STATUS_NOT_EXIST;
        c.note ("plugin %d in group %s: %s %s, %s %s\n", k, GRP[f.group], ON[op], r ? st (f.ret[mold][op]) : "missing", ON[other], f.has[0][other] ? "present" : "missing");
    }
    c.note ("%s %s %s of group %s\n", ON[op], mold ? "mold" : "config", quote (id).c_str (), GRP[g]); fresh (c, n); c.risk (strf ("%s-crash", ON[op]).c_str ());
    enum disir_status s = mold ? disir_mold_write (inst, GRP[g], id, (disir_mold *) MOLD) : op == WRITE ? disir_config_write (inst, GRP[g], id, (disir_config *) CFG) : disir_config_remove (inst, GRP[g], id);
    sane (c, g, id, mold); auto M = members (n, g); size_t len = strlen (id);
    if (!mold && (!len || id[len - 1] == '/')) { MC_CHECK (c, s != DISIR_STATUS_OK && calls->empty (), "namespace-id", "%s of %s: %s, %s", ON[op], quote (id).c_str (), st (s), trail ().c_str ()); c.outcome ("ill-formed"); }
    else if (M.empty ()) { MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && calls->empty (), "unknown-group", "an unknown group: %s, %s", st (s), trail ().c_str ()); MC_CHECK (c, disir_error (inst), "no-message", "an unknown group leaves no message"); c.outcome ("unknown"); }
    else if (!F[M[0]].has[mold][op]) { MC_CHECK (c, s != DISIR_STATUS_OK && calls->empty (), "missing-function", "the first plugin cannot %s: %s, %s", ON[op], st (s), trail ().c_str ()); c.outcome ("cannot"); }
    else
    {
        MC_CHECK (c, calls->size () == 1 && (*calls)[0].op == op && (*calls)[0].plugin == M[0], "wrong-plugin", "the first plugin of the group is %d, calls: %s", M[0], trail ().c_str ());
        MC_CHECK (c, (*calls)[0].arg == (op == REMOVE ? NULL : mold ? MOLD : CFG), "object", "the object to write does not reach the plugin");
        MC_CHECK (c, s == F[M[0]].ret[mold][op], "status", "the plugin answers %s, the call %s", st (F[M[0]].ret[mold][op]), st (s)); c.outcome (s ? "failed" : "done");
    }
    std::string key = strf ("%d%d%d%s", what, g, n, id); for (int i = 0; i < n; i++) key += strf ("|%d%d%d%d", F[i].group, F[i].has[mold][op], F[i].ret[mold][op], F[i].has[0][op == WRITE ? REMOVE : WRITE]);
    c.state (key); c.nontrivial (key); c.validated (); done (c, n);
}
static std::vector<std::vector<std::string>> lists (bool dup)
{
    const char *N[] = { "a", "b", "d/" }; std::vector<std::vector<std::string>> r = { {} };
    for (auto x : N) { r.push_back ({ x }); for (auto y : N) if (y != x) { r.push_back ({ x, y }); for (auto z : N) if (z != x && z != y) r.push_back ({ x, y, z }); } }
    if (dup) r.push_back ({ "a", "a" }), r.push_back ({ "b", "a", "a" }), r.push_back ({ "a", "b", "a" }), r.push_back ({ "a", "a", "b" }); return r;
}
static void list_ (Ctx &c, int maxn, bool mold)
{
    static auto *L = new std::vector<std::vector<std::string>> (lists (true)); int n = 1 + c.choose (maxn), g = c.choose (3); blank (n);
    for (int k = 0; k < n; k++)
    {
        Fake &f = F[k]; f.group = c.choose (2); int e = c.choose (L->size () + 2); f.has[mold][ENTRIES] = e != 0; if (e == 1) f.ret[mold][ENTRIES] = DISIR_STATUS_FS_ERROR; else if (e) f.list[mold] = (*L)[e - 2];
        std::string s; for (auto &x : f.list[mold]) s += x + " "; c.note ("plugin %d in group %s: entries %s\n", k, GRP[f.group], !e ? "missing" : e == 1 ? "fails" : s.c_str ());
    }
    int order = c.choose (3); c.note ("%s entries of group %s, released %s\n", mold ? "mold" : "config", GRP[g], order == 0 ? "from the front" : order == 1 ? "from the back" : "from the middle");
    fresh (c, n); c.risk ("list-crash"); disir_entry *e = NULL;
    enum disir_status s = mold ? disir_mold_entries (inst, GRP[g], &e) : disir_config_entries (inst, GRP[g], &e);
    sane (c, g, "", mold); std::map<std::string, int> want; for (int k : members (n, g)) for (auto &x : F[k].list[mold]) want.insert ({ x, k + 1 });
    MC_CHECK (c, s == DISIR_STATUS_OK, "list-status", "listing: %s", st (s)); c.transition ("", trail ());
    std::map<std::string, int> got; std::vector<disir_entry *> all; disir_entry *prev = NULL;
    for (disir_entry *x = e; x; x = x->next) { MC_CHECK (c, all.size () < 20, "list-loop", "the list does not end"); if (prev) MC_CHECK (c, x->prev == prev, "list-links", "the links of the list are wrong"); prev = x; all.push_back (x); MC_CHECK (c, got.insert ({ x->de_entry_name, x->de_attributes }).second, "list-twice", "%s is listed twice", quote (x->de_entry_name).c_str ()); }
    if (got != want) { std::string a, b; for (auto &x : got) a += strf ("%s(%d) ", x.first.c_str (), x.second - 1); for (auto &x : want) b += strf ("%s(%d) ", x.first.c_str (), x.second - 1); c.fail ("list", "listed with their plugin: %s, expected %s", a.c_str (), b.c_str ()); }
    c.risk ("entry-finished-crash"); std::vector<bool> gone (all.size ());
    for (size_t i = 0; i < all.size (); i++)
    {
        size_t k = order == 0 ? i : order == 1 ? all.size () - 1 - i : (all.size () / 2 + i) % all.size (); disir_entry *x = all[k]; gone[k] = true; disir_entry_finished (&x); MC_CHECK (c, !x, "entry-finished", "the entry is not released");
        std::vector<disir_entry *> left; for (size_t j = 0; j < all.size (); j++) if (!gone[j]) left.push_back (all[j]);
        for (size_t j = 0; j < left.size (); j++) { MC_CHECK (c, left[j]->next == (j + 1 < left.size () ? left[j + 1] : NULL), "unlink", "releasing one entry breaks the list"); MC_CHECK (c, left[j]->prev == (j ? left[j - 1] : left.back ()), "unlink", "releasing one entry breaks the list backwards"); }
    }
    std::string key = strf ("%d%d%d", n, mold, g); for (int k = 0; k < n; k++) { key += strf ("|%d%d%d", F[k].group, F[k].has[mold][ENTRIES], F[k].ret[mold][ENTRIES]); for (auto &x : F[k].list[mold]) key += x + ","; }
    c.state (key); c.nontrivial (key); c.outcome (want.size () > 1 ? "many" : "few"); c.validated (); done (c, n);
}
static void lists2 (Ctx &c) { list_ (c, 2, c.choose (2)); }
static void lists3 (Ctx &c) { list_ (c, 3, false); }
// plugins that store what they are given: any history of requests behaves like layered maps
static void history (Ctx &c, int depth)
{
    static const char *IDS[] = { "a", "d/b" }; int n = 2 + c.choose (2); blank (n); std::map<std::string, void *> W[5][2];
    for (int k = 0; k < n; k++)
    {
        Fake &f = F[k]; f.group = n == 3 && k < 2 ? c.choose (2) : k == 2 ? 0 : c.choose (2); f.storing = true; for (int m = 0; m < 2; m++) for (int o = 0; o < NOPS; o++) { f.has[m][o] = 1; f.ret[m][o] = DISIR_STATUS_OK; }
        int init = c.choose (4); for (int m = 0; m < 2; m++) for (int i = 0; i < 2; i++) if (init & (1 << i)) f.s.m[m][IDS[i]] = (void *) (0x100L + 16 * k + i), W[k][m][IDS[i]] = f.s.m[m][IDS[i]];
        c.note ("plugin %d in group %s has%s%s\n", k, GRP[f.group], init & 1 ? " a" : "", init & 2 ? " d/b" : "");
    }
    fresh (c, n); c.risk ("history-crash");
    for (int d = 0; d < depth; d++)
    {
        int op = c.choose (NOPS * 2 - 1); bool mold = op >= NOPS; if (mold) { op -= NOPS; if (op == REMOVE) op = ENTRIES; } int g = c.choose (2); auto G = members (n, g); std::string id = op == ENTRIES ? "" : IDS[c.choose (2)]; calls->clear ();
        c.note ("%s %s %s of %s\n", ON[op], mold ? "mold" : "config", id.c_str (), GRP[g]); int own = -1; for (int k : G) if (own < 0 && W[k][mold].count (id)) own = k; void *v = (void *) (0x200L + d);
        if (op == READ) { void *o = NULL; enum disir_status s = mold ? disir_mold_read (inst, GRP[g], id.c_str (), (disir_mold **) &o) : disir_config_read (inst, GRP[g], id.c_str (), NULL, (disir_config **) &o); MC_CHECK (c, own < 0 ? s == DISIR_STATUS_NOT_EXIST : s == DISIR_STATUS_OK && o == W[own][mold][id], "history-read", "read answers %s (%p), the entry is in plugin %d", st (s), o, own); }
        else if (op == QUERY) { disir_entry *e = NULL; enum disir_status s = mold ? disir_mold_query (inst, GRP[g], id.c_str (), &e) : disir_config_query (inst, GRP[g], id.c_str (), &e); MC_CHECK (c, (s == DISIR_STATUS_EXISTS) == (own >= 0) && (e != NULL) == (own >= 0), "history-query", "query answers %s, the entry is in plugin %d", st (s), own); if (e) disir_entry_finished (&e); }
        else if (op == WRITE) { enum disir_status s = mold ? disir_mold_write (inst, GRP[g], id.c_str (), (disir_mold *) v) : disir_config_write (inst, GRP[g], id.c_str (), (disir_config *) v); MC_CHECK (c, s == (G.empty () ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK), "history-write", "write answers %s", st (s)); if (!G.empty ()) W[G[0]][mold][id] = v; }
        else if (op == REMOVE) { bool has = !G.empty () && W[G[0]][0].erase (id); enum disir_status s = disir_config_remove (inst, GRP[g], id.c_str ()); MC_CHECK (c, s == (has ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST), "history-remove", "remove answers %s, the first plugin %s the entry", st (s), has ? "had" : "did not have"); }
        else { disir_entry *e = NULL; enum disir_status s = mold ? disir_mold_entries (inst, GRP[g], &e) : disir_config_entries (inst, GRP[g], &e); std::set<std::string> want, got; for (int k : G) for (auto &x : W[k][mold]) want.insert (x.first); bool twice = false; while (e) { disir_entry *x = e; e = e->next; twice |= !got.insert (x->de_entry_name).second; disir_entry_finished (&x); } MC_CHECK (c, s == DISIR_STATUS_OK && got == want && !twice, "history-list", "listing answers %s with %zu of %zu entries", st (s), got.size (), want.size ()); }
        for (auto &x : *calls) MC_CHECK (c, F[x.plugin].group == g, "foreign", "a plugin of another group is called: %s", trail ().c_str ());
    }
    std::string key; for (int k = 0; k < n; k++) { key += strf ("|%d", F[k].group); for (int m = 0; m < 2; m++) { MC_CHECK (c, F[k].s.m[m] == W[k][m], "history-store", "plugin %d does not hold what the requests gave it", k); for (auto &x : W[k][m]) key += strf (",%s=%p", x.first.c_str (), x.second); } }
    c.state (key); c.nontrivial (key); c.validated (); done (c, n);
}
static void histories (Ctx &c) { history (c, 2); }
static void deep (Ctx &c) { history (c, 3); }
// the registered plugins are listed in order, whatever order the list is released in
static void registered (Ctx &c)
{
    int n = c.choose (5); blank (n); for (int k = 0; k < n; k++) { F[k].group = c.choose (3); c.note ("plugin %d in %s\n", k, quote (GRP[F[k].group]).c_str ()); } bool null = c.choose (2); fresh (c, n);
    if (null) { disir_register_plugin p; memset (&p, 0, sizeof p); MC_CHECK (c, disir_plugin_register (NULL, &p, "i", "g") == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register (inst, NULL, "i", "g") == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register (inst, &p, NULL, "g") == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register (inst, &p, "i", NULL) == DISIR_STATUS_INVALID_ARGUMENT, "register-null", "registering without an argument is accepted"); }
    c.risk ("registered-crash"); size_t h0 = heap (); disir_plugin *l = (disir_plugin *) 1; enum disir_status s = disir_plugin_registered (inst, &l); MC_CHECK (c, s == DISIR_STATUS_OK, "registered", "listing the plugins: %s", st (s)); int k = 0;
    while (l) { MC_CHECK (c, k < n && !strcmp (l->pl_group_id, GRP[F[k].group]), "registered-order", "plugin %d is listed in %s", k, quote (l->pl_group_id).c_str ()); disir_plugin *x = l; l = l->next; disir_plugin_finished (&x); k++; }
    size_t h1 = heap (); MC_CHECK (c, k == n, "registered-count", "%d of %d plugins listed", k, n); MC_CHECK (c, h1 == h0, "registered-leak", "listing the plugins leaves %zd blocks", h1 - h0);
    disir_entry *e = NULL; disir_config *g = NULL; disir_mold *m = NULL; c.risk ("null-crash");
    if (null)
    {
#define INV(x) MC_CHECK (c, (x) == DISIR_STATUS_INVALID_ARGUMENT, "null", "%s is accepted", #x)
        INV (disir_plugin_registered (NULL, &l)); INV (disir_plugin_registered (inst, NULL));
        INV (disir_config_read (NULL, "G", "a", NULL, &g)); INV (disir_config_read (inst, NULL, "a", NULL, &g)); INV (disir_config_read (inst, "G", NULL, NULL, &g)); INV (disir_config_read (inst, "G", "a", NULL, NULL));
        INV (disir_mold_read (NULL, "G", "a", &m)); INV (disir_mold_read (inst, NULL, "a", &m)); INV (disir_mold_read (inst, "G", NULL, &m)); INV (disir_mold_read (inst, "G", "a", NULL));
        INV (disir_config_write (NULL, "G", "a", (disir_config *) CFG)); INV (disir_config_write (inst, NULL, "a", (disir_config *) CFG)); INV (disir_config_write (inst, "G", NULL, (disir_config *) CFG)); INV (disir_config_write (inst, "G", "a", NULL));
        INV (disir_mold_write (NULL, "G", "a", (disir_mold *) MOLD)); INV (disir_mold_write (inst, NULL, "a", (disir_mold *) MOLD)); INV (disir_mold_write (inst, "G", NULL, (disir_mold *) MOLD)); INV (disir_mold_write (inst, "G", "a", NULL));
        INV (disir_config_remove (NULL, "G", "a")); INV (disir_config_remove (inst, NULL, "a")); INV (disir_config_remove (inst, "G", NULL));
        INV (disir_config_entries (NULL, "G", &e)); INV (disir_config_entries (inst, NULL, &e)); INV (disir_config_entries (inst, "G", NULL)); INV (disir_mold_entries (NULL, "G", &e)); INV (disir_mold_entries (inst, NULL, &e)); INV (disir_mold_entries (inst, "G", NULL));
        INV (disir_config_query (NULL, "G", "a", NULL)); INV (disir_config_query (inst, NULL, "a", NULL)); INV (disir_config_query (inst, "G", NULL, NULL)); INV (disir_mold_query (NULL, "G", "a", NULL)); INV (disir_mold_query (inst, NULL, "a", NULL)); INV (disir_mold_query (inst, "G", NULL, NULL));
        MC_CHECK (c, calls->empty (), "null-called", "a request without an argument calls %s", trail ().c_str ());
    }
    std::string key = strf ("%d", null); for (int i = 0; i < n; i++) key += strf ("|%d", F[i].group); c.state (key); c.nontrivial (key); c.outcome (n ? "some" : "none"); c.validated (); done (c, n);
}
// export and import: the entry comes from the plugin that has it, and the first plugin of its group puts it into archives and takes it out
namespace ax {
static disir_mold *mold; static std::string base; static bool ready; struct Seen { int plugin; char what; int value; }; static std::vector<Seen> *seen; static bool has[4], wr[4], rd[4]; static int grp[4];
static disir_config *config (int v) { disir_context *x = NULL, *k = NULL; disir_config *r = NULL; if (dc_config_begin (mold, &x) || dc_begin (x, DISIR_CONTEXT_KEYVAL, &k) || dc_set_name (k, "k", 1) || dc_set_value_integer (k, v) || dc_finalize (&k) || dc_config_finalize (&x, &r)) abort (); return r; }
static int value (disir_config *c) { int64_t v = -1; disir_config_get_keyval_integer (c, &v, "k"); return v; }
static int who (disir_register_plugin *p) { return (int) (long) p->dp_storage - 1; }
static enum disir_status query (disir_instance *, disir_register_plugin *p, const char *id, disir_entry **e) { if (strcmp (id, "a") || !has[who (p)]) return DISIR_STATUS_NOT_EXIST; if (e) *e = mk (id, 0); return DISIR_STATUS_EXISTS; }
static enum disir_status mquery (disir_instance *, disir_register_plugin *, const char *id, disir_entry **e) { if (e) *e = mk (id, 0); return DISIR_STATUS_EXISTS; }
static enum disir_status entries (disir_instance *, disir_register_plugin *p, disir_entry **e) { *e = has[who (p)] ? mk ("a", 0) : NULL; if (*e) (*e)->prev = *e; return DISIR_STATUS_OK; }
static enum disir_status read (disir_instance *, disir_register_plugin *p, const char *, disir_mold *, disir_config **c) { int k = who (p); seen->push_back ({ k, 'r', k }); *c = config (k); return DISIR_STATUS_OK; }
static enum disir_status mread (disir_instance *, disir_register_plugin *p, const char *, disir_mold **m) { seen->push_back ({ who (p), 'm', 0 }); Mold d; d.kids = { MEl::kv ("k", Val::in (1)) }; Steps S; return build_mold (d, m, &S) ? DISIR_STATUS_INTERNAL_ERROR : DISIR_STATUS_OK; }
static enum disir_status write (disir_instance *, disir_register_plugin *p, const char *, disir_config *c) { seen->push_back ({ who (p), 'w', value (c) }); return DISIR_STATUS_OK; }
template <int K> static enum disir_status fdw (disir_instance *, disir_config *c, FILE *f) { seen->push_back ({ K, 'o', value (c) }); fprintf (f, "%d %d\n", K, value (c)); return DISIR_STATUS_OK; }
template <int K> static enum disir_status fdr (disir_instance *, FILE *f, disir_mold *, disir_config **c) { int w = -1, v = -1; if (fscanf (f, "%d %d", &w, &v) != 2) return DISIR_STATUS_FS_ERROR; seen->push_back ({ K, 'i', v }); *c = config (v); return DISIR_STATUS_OK; }
static std::string trail () { std::string r; for (auto &x : *seen) r += strf ("%d:%c%d ", x.plugin, x.what, x.value); return r; }
static void model (Ctx &c)
{
    if (!ready) { c.state ("no seccomp"); c.nontrivial ("no seccomp"); return; }
    int n = 1 + c.choose (3), whole = c.choose (2), names = c.choose (2), g = c.choose (3); blank (n); seen->clear (); fs::clear (base + "/home"); fs::clear (base + "/tmp");
    for (int k = 0; k < n; k++) { grp[k] = c.choose (3); has[k] = c.choose (2); wr[k] = rd[k] = true; if (grp[k] == g) { int f = c.choose (3); wr[k] = f != 1; rd[k] = f != 2; } c.note ("plugin %d in %s%s%s%s\n", k, quote (GRP[grp[k]]).c_str (), has[k] ? " with the entry" : "", wr[k] ? "" : ", cannot export", rd[k] ? "" : ", cannot import"); }
    c.note ("exporting %s %s, plugins named %s\n", whole ? "the group" : "the entry of", quote (GRP[g]).c_str (), names ? "alike" : "differently"); c.risk ("archive-crash"); disir_context *x = NULL; disir_config *gc = NULL; static disir_mold *em; if (!em) { Mold d; Steps S; if (build_mold (d, &em, &S)) abort (); } disir_instance *in = NULL; if (dc_config_begin (em, &x) || dc_config_finalize (&x, &gc) || disir_instance_create (NULL, gc, &in)) abort ();
    for (int k = 0; k < n; k++)
    {
        disir_register_plugin p; memset (&p, 0, sizeof p); std::string nm = names ? "n" : strf ("n%d", k); p.dp_name = (char *) nm.c_str (); p.dp_description = (char *) "d"; p.dp_config_entry_type = (char *) "c"; p.dp_mold_entry_type = (char *) "m"; p.dp_storage = (void *) (long) (k + 1); p.dp_config_query = query; p.dp_mold_query = mquery; p.dp_config_entries = entries; p.dp_config_read = read; p.dp_mold_read = mread; p.dp_config_write = write;
        static config_fd_write W[] = { fdw<0>, fdw<1>, fdw<2> }; static config_fd_read R[] = { fdr<0>, fdr<1>, fdr<2> }; if (wr[k]) p.dp_config_fd_write = W[k]; if (rd[k]) p.dp_config_fd_read = R[k]; if (disir_plugin_register (in, &p, "io", GRP[grp[k]])) abort ();
    }
    int first = -1, own = -1; for (int k = n - 1; k >= 0; k--) if (grp[k] == g) { first = k; if (has[k]) own = k; }
    disir_archive *ar = NULL; enum disir_status s = disir_archive_export_begin (in, NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "%s", st (s)); s = whole ? disir_archive_append_group (in, ar, GRP[g]) : disir_archive_append_entry (in, ar, GRP[g], "a"); std::string t = trail (); c.outcome (strf ("append: %s", st (s)));
    for (auto &q : *seen) MC_CHECK (c, q.plugin >= 0 && grp[q.plugin] == g, "foreign", "an export of group %s reaches plugin %d: %s", quote (GRP[g]).c_str (), q.plugin, t.c_str ());
    bool exported = own >= 0 && wr[first]; if (exported) { MC_CHECK (c, s == DISIR_STATUS_OK, "append", "appending: %s, calls %s", st (s), t.c_str ()); std::vector<Seen> o; for (auto &q : *seen) if (q.what == 'o') o.push_back (q); MC_CHECK (c, o.size () == 1 && o[0].plugin == first && o[0].value == own, "wrong-plugin", "plugin %d has the entry and plugin %d archives it, calls %s", own, first, t.c_str ()); }
    else { MC_CHECK (c, (s != DISIR_STATUS_OK) || (whole && first >= 0 && own < 0), "append-accepted", "nothing can be exported: %s, calls %s", st (s), t.c_str ()); for (auto &q : *seen) MC_CHECK (c, q.what != 'o', "append-accepted", "calls %s", t.c_str ()); }
    std::string file = base + "/home/a.disir"; s = disir_archive_finalize (in, exported ? file.c_str () : NULL, &ar); MC_CHECK (c, s == DISIR_STATUS_OK && !ar, "finalize", "%s", st (s));
    if (exported)
    {
        seen->clear (); disir_import *imp = NULL; int m = -1; s = disir_archive_import (in, file.c_str (), &imp, &m); MC_CHECK (c, s == DISIR_STATUS_OK && m == 1, "import", "importing: %s, %d entries", st (s), m); const char *e, *gr, *v, *info; e = gr = v = info = NULL; s = disir_import_entry_status (imp, 0, &e, &gr, &v, &info); MC_CHECK (c, gr && std::string (gr) == GRP[g] && !strcmp (e, "a"), "entry", "the archive lists %s of %s", e, gr); c.outcome (strf ("import: %s", st (s)));
        s = disir_import_resolve_entry (imp, 0, DISIR_IMPORT_FORCE); MC_CHECK (c, (s == DISIR_STATUS_OK) == rd[first], "force", "forcing: %s (%s)", st (s), info ? info : "-"); s = disir_import_finalize (in, DISIR_IMPORT_DO, &imp, NULL); MC_CHECK (c, s == DISIR_STATUS_OK, "import", "finalizing the import: %s", st (s)); t = trail ();
        for (auto &q : *seen) { MC_CHECK (c, q.plugin >= 0 && grp[q.plugin] == g, "foreign", "an import of group %s reaches plugin %d: %s", quote (GRP[g]).c_str (), q.plugin, t.c_str ()); if (q.what == 'i' || q.what == 'w') MC_CHECK (c, q.plugin == first && q.value == own, "wrong-plugin", "the import of what plugin %d had should go to plugin %d, calls %s", own, first, t.c_str ()); }
        int w = 0; for (auto &q : *seen) w += q.what == 'w'; MC_CHECK (c, w == (rd[first] ? 1 : 0), "written", "the imported config is written %d times", w);
    }
    disir_instance_destroy (&in); std::string key = strf ("%d%d%d%d", n, whole, names, g); for (int k = 0; k < n; k++) key += strf ("|%d%d%d%d", grp[k], has[k], wr[k], rd[k]); c.state (key); c.nontrivial (key); c.validated ();
}
}
static void init (const char *s)
{
    calls = new std::vector<Call>; calls->reserve (64); ax::seen = new std::vector<ax::Seen>; ax::seen->reserve (64); ax::base = s; fs::mkdirs (ax::base + "/home"); fs::mkdirs (ax::base + "/tmp"); Mold d; d.kids = { MEl::kv ("k", Val::in (1)) }; Steps S; if (build_mold (d, &ax::mold, &S)) abort (); ax::ready = sys::arm (s); static std::string t; t = ax::base + "/tmp/"; if (ax::ready) sys::redirect_prefix ("/tmp/", t.c_str ());
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C22", "exploration",
        "Every registration of up to three recording plugins (four for the plain listing of plugins) over two groups with every combination of answers and missing functions, and every request to it; every history of requests over storing plugins up to the depth; and exports of an entry or group from up to three plugins over three groups (one name beginning another), with and without the entry and the functions for archives, each imported again.",
        { "plugins answer with a handful of statuses", "the instance is created from an empty configuration, so that the only plugins are the registered ones" }, init, NULL };
    return mc::main (argc, argv, i, { { "reads", 3, reads_ }, { "query", 3, query }, { "write", 3, writes }, { "lists", 3, lists2 }, { "registered", 2, registered }, { "histories", 3, histories }, { "archives", 3, ax::model, false, 20 }, { "lists3", 4, lists3, true, 20 }, { "deep", 4, deep, true } });
}
