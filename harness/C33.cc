// C33: an interrupted operation leaves every document as it was or as it was to be
// technique: exhaustive crash-point enumeration on the real code: the process is ended at every modifying system call of every operation and history, and after any part of every write, and what is stored then is read back in full
#include "arc.h"
#include "proc.h"
using namespace mc; using namespace mm; using arc::Id;
extern "C" int mc_log_to_null;
static Mold M, N; static disir_mold *mp, *np; static std::string lib; static Cfg C[3]; static disir_config *cp[3]; static const char *GN[] = { "g", "h" };
enum { WA, WB, WBIG, WDIR, REMOVE, MWRITE, LIB, OPS }; static const char *ON[] = { "write a", "write a otherwise", "write a long a", "write d/n", "remove a", "write the mold e", "write the library configuration" };
static void step (int g, int op)
{
    disir_instance *in = arc::in[0]; disir_error_clear (in);
    switch (op)
    {
    case WA: case WB: case WBIG: disir_config_write (in, GN[g], "a", cp[op - WA]); break; case WDIR: disir_config_write (in, GN[g], "d/n", cp[1]); break; case REMOVE: disir_config_remove (in, GN[g], "a"); break; case MWRITE: disir_mold_write (in, GN[g], "e", np); break; case LIB: disir_libdisir_config_to_disk (in, cp[2], lib.c_str ()); break;
    }
    disir_error_clear (in);
}
static void layout (int g, int prior)
{
    arc::clear_side (0); fs::clear (arc::home); if (prior) { disir_libdisir_config_to_disk (arc::in[0], cp[prior == 1 ? 0 : 1], lib.c_str ()); disir_error_clear (arc::in[0]); } fs::clear (arc::molds[g]); arc::put_mold (Id (g, "a"), M); fs::mkdirs (arc::molds[g] + "/d"); arc::put_mold (Id (g, "d/n"), M); if (prior) { step (g, prior == 1 ? WA : WBIG); arc::put_mold (Id (g, "e"), M); }
}
static std::string view (int g)
{
    static const std::vector<Ver> pv = { Ver (1, 0) }; disir_instance *in = arc::in[0]; std::string r;
    for (const char *id : { "a", "d/n" }) { disir_config *p = NULL; disir_error_clear (in); enum disir_status s = disir_config_read (in, GN[g], id, NULL, &p); r += strf ("%s: %s", id, st (s)); if (p) { r += " " + arc::shown (p); disir_config_finished (&p); } r += "\n"; }
    disir_entry *e = NULL; std::set<std::string> l; disir_config_entries (in, GN[g], &e); for (disir_entry *n; e; e = n) { n = e->next; l.insert (e->de_entry_name); disir_entry_finished (&e); } r += "listed:"; for (auto &x : l) r += " " + x;
    disir_mold *m = NULL; enum disir_status s = disir_mold_read (in, GN[g], "e", &m); r += strf ("\nmold e: %s", st (s)); if (m) { Mold x; std::string err; r += dump_mold (m, x, pv, err) ? " " + show (canon (x, pv)) : err; disir_mold_finished (&m); }
    disir_config *p = NULL; s = disir_libdisir_config_from_disk (in, lib.c_str (), mp, &p); r += strf ("\nlibrary configuration: %s", st (s)); if (p) { r += " " + arc::shown (p); disir_config_finished (&p); } disir_error_clear (in); return r;
}
static std::string brief (const std::string &s) { std::string r; for (size_t i = 0; i < s.size (); i++) { size_t j = i; while (j < s.size () && s[j] == s[i]) j++; if (j - i > 20) { r += strf ("%c{%zu}", s[i], j - i); i = j - 1; } else r += s[i]; } return r; }
// the calls that change something
static std::vector<int> points (const proc::Trace &t) { std::vector<int> r; for (int i = 0; i < (int) t.calls.size (); i++) if (t.calls[i].modifies || t.calls[i].nr == SYS_close || t.calls[i].nr == SYS_fsync || t.calls[i].nr == SYS_fdatasync) r.push_back (i); return r; }
static long cut (Ctx &c, const sys::Call &k, int all)
{
    if (k.nr != SYS_write || k.size < 2) return -1; if (k.size <= all) return c.choose (k.size); long T[] = { -1, k.size / 2, 1, k.size - 1 }; return T[c.choose (all ? 4 : 2)];
}
struct Hist { proc::Trace t; std::vector<std::string> view; };
static void stored (Ctx &c, int len, int all)
{
    int g = c.choose (2), prior = c.choose (3); std::vector<int> ops; for (int i = 0; i < len; i++) ops.push_back (c.choose (OPS)); std::vector<int> key = ops; key.push_back (g); key.push_back (prior);
    static std::map<std::vector<int>, Hist> memo; Hist &h = memo[key]; auto all_of = [&] { for (int o : ops) { step (g, o); proc::mark (); } };
    if (h.view.empty ())
    {
        layout (g, prior); h.view.push_back (view (g)); for (int o : ops) { step (g, o); h.view.push_back (view (g)); }
        layout (g, prior); all_of (); h.t = proc::trace ([&] { layout (g, prior); sys::begin (); all_of (); }); MC_CHECK (c, h.t.status == 0 && (int) h.t.marks.size () == len, "setup", "the history does not run: %d", h.t.status);
    }
    std::vector<int> p = points (h.t); if (p.empty ()) c.prune (); int k = p[c.choose (p.size ())]; const sys::Call &call = h.t.calls[k]; long n = cut (c, call, all); layout (g, prior);
    std::string what; for (int o : ops) what += strf ("%s, ", ON[o]); c.note ("group %s (%s), store %s: %sended at call %d %s after %ld bytes\n", GN[g], g ? "toml" : "json", prior == 0 ? "empty" : prior == 1 ? "with a and e" : "with a long a and e", what.c_str (), k, sys::show (call).c_str (), n); c.risk ("crash");
    if (!proc::crash (all_of, k, n)) c.fail ("setup", "the call is not reached again");
    int done = 0; for (int m : h.t.marks) done += m <= k; std::string v = view (g), a = h.view[done], b = h.view[std::min (done + 1, len)];
    MC_CHECK (c, v == a || v == b, "torn", "ended during \"%s\", what is stored is neither as before nor as after it\n%s\nbefore:\n%s\nafter:\n%s", ON[ops[std::min (done, len - 1)]], brief (v).c_str (), brief (a).c_str (), brief (b).c_str ());
    // it can be done again
    for (int i = done; i < len; i++) step (g, ops[i]); v = view (g); MC_CHECK (c, v == h.view[len], "again", "done again after it was ended, what is stored is\n%s\nexpected\n%s", brief (v).c_str (), brief (h.view[len]).c_str ());
    c.state (strf ("%d %d %s %d %ld", g, prior, what.c_str (), k, n)); c.nontrivial (strf ("%d %d %s %d %ld", g, prior, what.c_str (), k, n)); c.outcome (v == a ? "as before" : "as after"); c.validated ();
}
static void single (Ctx &c) { stored (c, 1, 400); }
static void pairs (Ctx &c) { stored (c, 2, c.thorough () ? 40 : 0); }
static void triples (Ctx &c) { stored (c, 3, 0); }
// archives
// what a process that ended left behind is no entry
static arc::Content content_of (int side) { arc::Content r; for (auto &x : arc::content (side)) if (x.first.second.size () && x.first.second.back () != '/') r.insert (x); return r; }
static const Id IDS[] = { Id (0, "a"), Id (0, "b"), Id (1, "a"), Id (1, "b") }; static std::map<Id, std::string> fresh_of; static std::string kept; static arc::Content source, older; static std::string dest, orig, existing;
enum { FRESH, OVER, SAME, MOVE, MOVEOVER, SCEN }; static const char *SN[] = { "new archive", "new archive over an existing one", "extended archive", "extended archive to another place", "extended archive over another one" };
static void exporting (int scen)
{
    disir_archive *ar = NULL; const char *from = scen == SAME ? dest.c_str () : scen >= MOVE ? orig.c_str () : NULL; disir_instance *in = arc::in[0]; disir_error_clear (in);
    if (disir_archive_export_begin (in, from, &ar)) return; if (disir_archive_append_entry (in, ar, "g", "b") == DISIR_STATUS_OK && disir_archive_append_group (in, ar, "h") == DISIR_STATUS_OK) disir_archive_finalize (in, dest.c_str (), &ar); else disir_archive_finalize (in, NULL, &ar);
}
static void archives (int scen)
{
    arc::clear_side (0); for (auto &x : source) arc::store (0, x.first, x.second); for (auto &i : IDS) arc::put_mold (i, M); fs::clear (arc::tmp); fs::clear (arc::home); if (scen == OVER || scen == SAME || scen == MOVEOVER) fs::put (dest, existing); if (scen == MOVE || scen == MOVEOVER) fs::put (orig, existing);
}
static std::string complete (int scen)
{
    std::map<Id, std::string> v; arc::clear_side (1); std::string e = arc::import_all (arc::in[1], dest, v); if (e.size ()) return e; arc::Content want = source; if (scen == FRESH || scen == OVER) want.erase (Id (0, "a")); return arc::diff (want, content_of (1));
}
static void exports (Ctx &c)
{
    int scen = c.choose (SCEN); static proc::Trace memo[SCEN]; proc::Trace &t = memo[scen]; auto fn = [&] { exporting (scen); };
    if (t.calls.empty ()) { archives (scen); t = proc::trace (fn); std::string e = complete (scen); MC_CHECK (c, t.status == 0 && e.empty (), "setup", "%s: %s", SN[scen], e.c_str ()); }
    std::vector<int> p = points (t); int k = p[c.choose (p.size ())]; long n = cut (c, t.calls[k], 40); archives (scen); c.note ("%s, ended at call %d %s after %ld bytes\n", SN[scen], k, sys::show (t.calls[k]).c_str (), n); c.risk ("crash");
    if (!proc::crash (fn, k, n)) c.fail ("setup", "the call is not reached again");
    std::string d, o; bool has = fs::get (dest, d), from = fs::get (orig, o); if (scen >= MOVE && from) MC_CHECK (c, o == existing, "source", "the archive that is extended is damaged");
    bool old = scen == FRESH || scen == MOVE ? !has : has && d == existing; if (scen >= MOVE && !from) old = false;
    if (!old) { MC_CHECK (c, has, "lost", "%s: no archive is left", SN[scen]); std::string e = complete (scen); MC_CHECK (c, e.empty (), "torn-archive", "%s: the archive is neither as before nor complete: %s", SN[scen], e.c_str ()); }
    if (scen < MOVE || from) { exporting (scen); std::string e = scen == SAME && !old ? "" : complete (scen); MC_CHECK (c, e.empty (), "again", "%s, done again: %s", SN[scen], e.c_str ()); }
    c.state (strf ("export %d %d %ld", scen, k, n)); c.nontrivial (strf ("export %d %d %ld", scen, k, n)); c.outcome (old ? "archive as before" : "archive complete"); c.validated ();
}
static void imports (Ctx &c)
{
    static proc::Trace t; static std::string full; auto lay = [&] { fs::clear (arc::tmp); fs::clear (arc::home); fs::put (dest, full); arc::clear_side (1); for (auto &x : older) arc::store (1, x.first, x.second); for (auto &i : IDS) arc::put_mold (i, M); };
    auto fn = [&] { std::map<Id, std::string> v; arc::import_all (arc::in[1], dest, v); };
    if (full.empty ()) { archives (MOVE); exporting (MOVE); if (!fs::get (dest, full)) abort (); lay (); t = proc::trace (fn); std::string e = arc::diff (source, content_of (1)); MC_CHECK (c, t.status == 0 && e.empty (), "setup", "%s", e.c_str ()); }
    std::vector<int> p = points (t); int k = p[c.choose (p.size ())]; long n = cut (c, t.calls[k], c.thorough () ? 400 : 0); lay (); c.note ("import, ended at call %d %s after %ld bytes\n", k, sys::show (t.calls[k]).c_str (), n); c.risk ("crash");
    if (!proc::crash (fn, k, n)) c.fail ("setup", "the call is not reached again");
    int fresh = 0; for (auto &i : IDS)
    {
        disir_config *q = NULL; disir_error_clear (arc::in[1]); enum disir_status s = disir_config_read (arc::in[1], GN[i.first], i.second.c_str (), NULL, &q); std::string got = q ? arc::shown (q) : st (s); if (q) disir_config_finished (&q);
        std::string nw = fresh_of[i], ol = older.count (i) ? kept : st (DISIR_STATUS_NOT_EXIST); MC_CHECK (c, got == nw || got == ol, "torn-import", "%s is neither the existing config nor the one of the archive: %s", arc::show (i).c_str (), brief (got).c_str ()); fresh += got == nw;
    }
    std::string f; MC_CHECK (c, fs::get (dest, f) && f == full, "archive", "the archive is changed"); fn (); std::string e = arc::diff (source, content_of (1)); MC_CHECK (c, e.empty (), "again", "imported again: %s", e.c_str ());
    c.state (strf ("import %d %ld", k, n)); c.nontrivial (strf ("import %d %ld", k, n)); c.outcome (strf ("%d imported", fresh)); c.validated ();
}
static void init (const char *s)
{
    arc::init (s); lib = arc::home + "/lib.toml"; M.kids = { MEl::kv ("k", Val::in (1)).with (Res::min (0)), MEl::kv ("t", Val::str ("")).with (Res::min (0)).with (Res::max (0)) }; N = M; N.kids[0].defs[0].val = Val::in (2); N.docs = { { Ver (1, 0), std::string (9000, 'd') } }; Steps S; if (build_mold (M, &mp, &S) || build_mold (N, &np, &S)) abort ();
    C[0].kids = { CEl::kv ("k", Val::in (5)), CEl::kv ("t", Val::str ("one")), CEl::kv ("t", Val::str ("two")) }; C[1].kids = { CEl::kv ("t", Val::str ("three")), CEl::kv ("k", Val::in (77)) }; C[2].kids = { CEl::kv ("k", Val::in (9)) }; for (int i = 0; i < 3; i++) C[2].kids.push_back (CEl::kv ("t", Val::str (std::string (5000, 'a' + i))));
    for (int i = 0; i < 3; i++) { C[i].v = Ver (1, 0); if (build_config (C[i], mp, &cp[i], &S)) abort (); }
    dest = arc::home + "/ar.disir"; orig = arc::home + "/from.disir"; int n = 0; kept = arc::shown (cp[0]); for (auto &i : IDS) { arc::put_mold (i, M); disir_config *p = cp[1 + n++ % 2]; if (disir_config_write (arc::in[0], GN[i.first], i.second.c_str (), p) || disir_config_read (arc::in[0], GN[i.first], i.second.c_str (), NULL, &p)) abort (); fresh_of[i] = arc::shown (p); disir_config_finished (&p); if (n != 2 && disir_config_write (arc::in[1], GN[i.first], i.second.c_str (), cp[0])) abort (); }
    source = arc::content (0); older = arc::content (1); disir_archive *a = NULL; if (disir_archive_export_begin (arc::in[0], NULL, &a) || disir_archive_append_entry (arc::in[0], a, "g", "a") || disir_archive_finalize (arc::in[0], dest.c_str (), &a) || !fs::get (dest, existing)) abort ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C33", "fault_enumeration",
        "Every history of one or two (thorough: three) of seven operations (writing a config short and long, into a new directory, removing one, writing a mold or the library configuration) in three stores and both formats; five exports; one import of four entries over three. The process running it is ended at every system call that changes something, and after every number of bytes of a short write, some of a long one; then everything is read back, and the operation done again.",
        { "the process ends, the system does not: what was written stays written, in order" }, init, NULL };
    return mc::main (argc, argv, i, { { "single", 3, single }, { "pairs", 4, pairs }, { "exports", 2, exports }, { "imports", 1, imports }, { "triples", 5, triples, true } });
}
