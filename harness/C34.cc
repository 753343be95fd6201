// C34: processes working side by side see and leave what some order of their operations gives
// technique: exhaustive preemption-bounded exploration on the real code: two processes run one operation each and a controlled scheduler interleaves their system calls in every way with a bounded number of preemptions
#include "arc.h"
#include "proc.h"
#include <time.h>
using namespace mc; using namespace mm; using arc::Id;
extern "C" int mc_log_to_null;
// all processes start within one second
extern "C" time_t time (time_t *t) { if (t) *t = 1000000000; return 1000000000; }
static Mold M, N, O; static disir_mold *np, *op; static Cfg C[2]; static disir_config *cp[2]; static const char *GN[] = { "g", "h" };
static bool changes;        // stop before calls that change something only
static bool visible (const sys::Call &c, const sys::Call *p, const sys::Call *q)
{
    if (changes && !c.modifies) return false;
    if (c.nr == SYS_fstat || c.nr == SYS_lseek || c.nr == SYS_fchmod || (c.nr == SYS_newfstatat && c.fd >= 0)) return false;
    return !(p && q && c.fd >= 0 && p->nr == c.nr && q->nr == c.nr && p->fd == c.fd && q->fd == c.fd);      // within a run of transfers
}
enum { W1, W2, WD, WE, WM, REMOVE, READ, READE, QUERY, LIST, MW, MW2, MREAD, MQUERY, MLIST, OPS };
static const char *ON[] = { "write a", "write a otherwise", "write d/n/x", "write d/n/y", "write e", "remove a", "read a", "read e", "query a", "list the configs", "write the mold e", "write the mold e otherwise", "read the mold e", "query the mold e", "list the molds" };
static std::string shown (disir_mold *p) { static const std::vector<Ver> pv = { Ver (1, 0) }; Mold x; std::string e; return dump_mold (p, x, pv, e) ? show (canon (x, pv)) : "? " + e; }
static std::string names (disir_entry *e) { std::set<std::string> l; for (disir_entry *n; e; e = n) { n = e->next; l.insert (e->de_entry_name); disir_entry_finished (&e); } std::string r; for (auto &x : l) r += " " + x; return r; }
static std::string run (int g, int o)
{
    disir_instance *in = arc::in[0]; disir_error_clear (in); enum disir_status s; disir_config *p = NULL; disir_mold *m = NULL; disir_entry *e = NULL; std::string r; const char *G = GN[g];
    switch (o)
    {
    case W1: case W2: s = disir_config_write (in, G, "a", cp[o - W1]); break; case WD: s = disir_config_write (in, G, "d/n/x", cp[0]); break; case WE: s = disir_config_write (in, G, "d/n/y", cp[1]); break; case WM: s = disir_config_write (in, G, "e", cp[1]); break;
    case REMOVE: s = disir_config_remove (in, G, "a"); break; case READ: case READE: s = disir_config_read (in, G, o == READ ? "a" : "e", NULL, &p); if (p) { r = arc::shown (p); disir_config_finished (&p); } break;
    case QUERY: s = disir_config_query (in, G, "a", &e); r = names (e); break; case LIST: s = disir_config_entries (in, G, &e); r = names (e); break;
    case MW: case MW2: s = disir_mold_write (in, G, "e", o == MW ? np : op); break; case MREAD: s = disir_mold_read (in, G, "e", &m); if (m) { r = shown (m); disir_mold_finished (&m); } break; case MQUERY: s = disir_mold_query (in, G, "e", &e); r = names (e); break; default: s = disir_mold_entries (in, G, &e); r = names (e); break;
    }
    if (s != DISIR_STATUS_OK && s != DISIR_STATUS_EXISTS && s != DISIR_STATUS_NOT_EXIST && s != DISIR_STATUS_MOLD_MISSING && disir_error (in)) r += strf (" (%s)", disir_error (in));
    r = st (s) + (" " + r); disir_error_clear (in); return r;
}
static void layout (int g, int prior)
{
    arc::clear_side (0); fs::clear (arc::molds[g]); arc::put_mold (Id (g, "a"), M); arc::put_mold (Id (g, "d/n/x"), M); arc::put_mold (Id (g, "d/n/y"), M); if (prior) { run (g, W2); arc::put_mold (Id (g, "e"), M); run (g, WM); }
}
static std::string left (int g) { std::string r; for (auto &f : fs::snap (arc::dir[0][g])) r += f.first + " = " + f.second + "\n"; for (auto &f : fs::snap (arc::molds[g])) r += "mold " + f.first + " = " + f.second + "\n"; return r; }
struct Seen { std::string r[2], left; bool operator== (const Seen &o) const { return r[0] == o.r[0] && r[1] == o.r[1] && left == o.left; } };
static std::string str (const Seen &s) { std::string l = s.left.size () > 700 ? s.left.substr (0, 700) + "..." : s.left; return "the first: " + s.r[0] + "\nthe second: " + s.r[1] + "\nleft:\n" + l; }
static void side_by_side (Ctx &c, const std::string &what, const std::function<std::string ()> *fn, const std::function<void ()> &lay, const std::function<std::string ()> &after, Seen *order, int bound)
{
    if (order[0].left.empty ()) for (int f = 0; f < 2; f++) { lay (); proc::Pair p = proc::interleave (fn, f, [] (int, const sys::Call &) { return false; }); MC_CHECK (c, p.status[0] == 0 && p.status[1] == 0, "setup", "%s one after the other: %d %d", what.c_str (), p.status[0], p.status[1]); order[f] = { { p.result[0], p.result[1] }, after () }; if (order[f].left.empty ()) order[f].left = "nothing"; }
    int first = c.choose (2); std::string key; lay (); c.note ("%s; the %s goes first\n", what.c_str (), first ? "second" : "first"); c.risk ("crash");
    proc::Pair p = proc::interleave (fn, first, [&] (int who, const sys::Call &at) { (void) at; int d = c.deviate (2, bound); key += (char) ('0' + 2 * who + d); return d == 1; });
    c.note ("%s", p.schedule.c_str ()); Seen s = { { p.result[0], p.result[1] }, after () }; if (s.left.empty ()) s.left = "nothing";
    MC_CHECK (c, p.status[0] == 0 && p.status[1] == 0, "died", "a process ends with %d, the other with %d", p.status[0], p.status[1]);
    if (!(s == order[0]) && !(s == order[1])) c.fail (strf ("order:%s", what.c_str ()).c_str (), "%s:\n%s\nin sequence:\n%s\nor in the other order:\n%s", what.c_str (), str (s).c_str (), str (order[0]).c_str (), str (order[1]).c_str ());
    key = what + " " + key; c.state (key); if (p.switches) c.nontrivial (key); c.transition (what, p.schedule); c.outcome (strf ("%d switches, %s", p.switches, s == order[0] && s == order[1] ? "either order" : s == order[0] ? "in order" : "in the other order")); c.validated ();
}
static void entries (Ctx &c, int bound)
{
    int g = c.choose (2), prior = c.choose (2), a = c.choose (OPS), b = c.choose (OPS); if (b < a || (a == b && a >= READ && a != MW) || (a >= READ && a <= LIST && b >= READ && b <= LIST) || (a >= MREAD)) c.prune ();
    static std::map<std::vector<int>, std::vector<Seen>> memo; auto &o = memo[{ g, prior, a, b }]; o.resize (2); std::function<std::string ()> fn[2] = { [=] { return run (g, a); }, [=] { return run (g, b); } };
    side_by_side (c, strf ("%s and %s (%s, %s)", ON[a], ON[b], g ? "toml" : "json", prior ? "stored before" : "empty before"), fn, [=] { layout (g, prior); }, [=] { return left (g); }, o.data (), bound);
}
static void once (Ctx &c) { changes = false; entries (c, 1); }
static void twice (Ctx &c) { changes = false; entries (c, 2); }
// archives: everything is exported, imported or written at the same time
static const Id IDS[] = { Id (0, "a"), Id (0, "b"), Id (1, "a") }; static std::string text[1][1], dest[2], ready; static arc::Content had[1];
enum { EX1, EX2, EXPART, EXTEND, IMPORT, XW, XREMOVE, XREAD, ARCH }; static const char *AN[] = { "export everything", "export everything to another archive", "export one group to the first archive", "extend an archive into the first archive", "import everything", "write g:a", "remove g:a", "read g:a" };
static std::string archive (int o)
{
    disir_instance *in = arc::in[0]; disir_error_clear (in); enum disir_status s = DISIR_STATUS_OK; std::string r; disir_archive *a = NULL; disir_config *p = NULL;
    switch (o)
    {
    case EX1: case EX2: case EXPART: case EXTEND: s = disir_archive_export_begin (in, o == EXTEND ? ready.c_str () : NULL, &a); r = st (s); if (s == DISIR_STATUS_OK && o != EXPART) { s = disir_archive_append_group (in, a, "g"); r += strf (" %s", st (s)); } if (a) { s = disir_archive_append_group (in, a, "h"); r += strf (" %s", st (s)); s = disir_archive_finalize (in, dest[o == EX2].c_str (), &a); r += strf (" %s", st (s)); if (a) disir_archive_finalize (in, NULL, &a); } break;
    case IMPORT: { std::map<Id, std::string> v; r = arc::import_all (in, ready, v); for (auto &x : v) r += " " + arc::show (x.first); break; }
    case XW: s = disir_config_write (in, "g", "a", cp[1]); r = st (s); break; case XREMOVE: s = disir_config_remove (in, "g", "a"); r = st (s); break; default: s = disir_config_read (in, "g", "a", NULL, &p); r = st (s); if (p) { r += arc::shown (p); disir_config_finished (&p); }
    }
    disir_error_clear (in); return r;
}
static void arch_layout () { fs::clear (arc::tmp); fs::clear (arc::home); arc::clear_side (0); for (auto &x : had[0]) arc::store (0, x.first, x.second); for (int k = 0; k < 3; k++) arc::put_mold (IDS[k], M); fs::put (ready, text[0][0]); }
static std::string stored () { std::string r; for (auto &x : arc::content (0)) r += arc::show (x.first) + " = " + x.second + "\n"; return r; }
static std::string arch_left (bool extended)
{
    std::string r = stored (); for (auto &f : fs::snap (arc::home)) { r += "archive " + f.first; if (!extended || f.first != "ready.disir") { std::map<Id, std::string> v; arc::clear_side (1); std::string e = arc::import_all (arc::in[1], arc::home + "/" + f.first, v); r += " " + e; for (auto &x : arc::content (1)) r += " " + arc::show (x.first) + " = " + x.second; } r += "\n"; }
    return r + "temporary: " + arc::left ();
}
static void archives (Ctx &c, int bound)
{
    static std::map<std::vector<int>, std::vector<Seen>> memo; int a = c.choose (ARCH), b = c.choose (ARCH); if (b < a || a >= XW || (a == EXTEND && (b == EXTEND || b == IMPORT)) || (a <= EXTEND && b == XREMOVE) || (bound > 1 && !c.thorough () && (a != EX1 || b != EX2))) c.prune (); changes = bound > 1 || (!c.thorough () && b <= EXTEND); auto &o = memo[{ a, b }]; o.resize (2); std::function<std::string ()> fn[2] = { [=] { return archive (a); }, [=] { return archive (b); } };
    side_by_side (c, strf ("%s and %s", AN[a], AN[b]), fn, arch_layout, [] { return arch_left (false); }, o.data (), bound);
}
static void archives_once (Ctx &c) { archives (c, 1); }
static void archives_twice (Ctx &c) { archives (c, 2); }
int main (int argc, char **argv)
{
    mc_log_to_null = 1; proc::visible = visible;
    Info i = { "C34", "exploration",
        "Every pair of fifteen operations on configs and molds in both formats, empty and stored before, and of eight on archives (exports of everything and of a part to the same and to different archives, extending one, importing, and writing, removing and reading a config meanwhile), run by two processes of which either goes first, switched once (two exports, and in the thorough tier all pairs: twice) before any of their system calls: what both report and everything that is left equals what one of the two orders gives.",
        { "processes are switched before system calls only, and within a run of transfers on one open file after the first two only; two exports before calls that change something", "extending an archive and using the same archive at the same time is left to the user", "two processes, one operation each" }, [] (const char *s) {
            arc::init (s); M.kids = { MEl::kv ("k", Val::in (1)).with (Res::min (0)), MEl::kv ("t", Val::str ("")).with (Res::min (0)).with (Res::max (0)) }; N = M; N.kids[0].defs[0].val = Val::in (2); O = M; O.kids[0].defs[0].val = Val::in (3); disir_mold *mp; Steps S; if (build_mold (M, &mp, &S) || build_mold (N, &np, &S) || build_mold (O, &op, &S)) abort ();
            C[0].kids = { CEl::kv ("k", Val::in (5)), CEl::kv ("t", Val::str ("one")) }; C[1].kids = { CEl::kv ("t", Val::str ("two")), CEl::kv ("k", Val::in (77)) }; for (int k = 0; k < 2; k++) { C[k].v = Ver (1, 0); if (build_config (C[k], mp, &cp[k], &S)) abort (); }
            dest[0] = arc::home + "/one.disir"; dest[1] = arc::home + "/two.disir"; ready = arc::home + "/ready.disir"; for (int k = 0; k < 3; k++) arc::put_mold (IDS[k], M); disir_archive *a = NULL; if (disir_config_write (arc::in[0], "g", "b", cp[1]) || disir_config_write (arc::in[0], "g", "a", cp[1]) || disir_archive_export_begin (arc::in[0], NULL, &a) || disir_archive_append_group (arc::in[0], a, "g") || disir_archive_finalize (arc::in[0], ready.c_str (), &a) || !fs::get (ready, text[0][0])) abort ();
            if (disir_config_write (arc::in[0], "g", "a", cp[0]) || disir_config_write (arc::in[0], "h", "a", cp[0])) abort (); had[0] = arc::content (0);
        }, NULL };
    return mc::main (argc, argv, i, { { "once", 4, once }, { "archives", 2, archives_once }, { "archives-twice", 3, archives_twice }, { "twice", 4, twice, true } });
}
