// C24: a failed export never destroys the existing archive or claims success
// technique: exhaustive fault enumeration on the real export: every system call of begin, append and finalize x every error it can return or a short transfer, once or from then on, and both reactions to a failing append
#include "arc.h"
using namespace mc; using namespace mm; using arc::Id;
extern "C" int mc_log_to_null;
static arc::Content source; static std::string existing; static disir_mold *mp;
static const Id IDS[] = { Id (0, "a"), Id (0, "b"), Id (1, "a"), Id (1, "b") };
enum { FRESH, OVER, SAME, MOVE, MOVEOVER, SCEN }; static const char *SN[] = { "new archive", "new archive over an existing one", "extended archive", "extended archive to another place", "extended archive over another one" };
static std::string dest, orig;
static const char *STEP[] = { "begin", "append g:b", "append group h", "finalize" };
static void layout (int scen)
{
    fs::clear (arc::tmp); fs::clear (arc::home); if (scen == OVER || scen == SAME || scen == MOVEOVER) fs::put (dest, existing); if (scen == MOVE || scen == MOVEOVER) fs::put (orig, existing); disir_error_clear (arc::in[0]); disir_error_clear (arc::in[1]);
}
// the sequence; `react`: 0 discards after a failing append, 1 carries on
static enum disir_status st_[5]; static disir_archive *ar;
static void call (int scen, int react)
{
    for (int i = 0; i < 5; i++) st_[i] = DISIR_STATUS_INTERNAL_ERROR; ar = NULL; const char *from = scen == SAME ? dest.c_str () : scen >= MOVE ? orig.c_str () : NULL;
    st_[0] = disir_archive_export_begin (arc::in[0], from, &ar); if (st_[0] != DISIR_STATUS_OK) return;
    st_[1] = disir_archive_append_entry (arc::in[0], ar, "g", "b"); if (st_[1] == DISIR_STATUS_OK || react) { st_[2] = disir_archive_append_group (arc::in[0], ar, "h"); if (st_[2] == DISIR_STATUS_OK || react) { st_[3] = disir_archive_finalize (arc::in[0], dest.c_str (), &ar); return; } }
    st_[4] = disir_archive_finalize (arc::in[0], NULL, &ar);
}
static void init (const char *s)
{
    arc::init (s); dest = arc::home + "/ar.disir"; orig = arc::home + "/from.disir"; Mold M; M.kids = { MEl::kv ("k", Val::in (1)), MEl::kv ("t", Val::str ("")).with (Res::min (0)).with (Res::max (20)) }; Steps S; if (build_mold (M, &mp, &S)) abort ();
    int n = 0; for (auto &i : IDS)
    {
        arc::put_mold (i, M); Cfg c; c.v = Ver (1, 0); c.kids = { CEl::kv ("k", Val::in (n++)) }; if (n == 2) { unsigned x = 1; std::string big; for (int k = 0; k < 24000; k++) { x = x * 1103515245 + 12345; big += (char) ('a' + (x >> 16) % 26); } c.kids.push_back (CEl::kv ("t", Val::str (big))); }
        disir_config *p = NULL; if (build_config (c, mp, &p, &S) || disir_config_write (arc::in[0], arc::GROUPS[i.first].name, i.second.c_str (), p)) abort (); disir_config_finished (&p);
    }
    source = arc::content (0); fs::clear (arc::home); disir_archive *a = NULL;
    if (disir_archive_export_begin (arc::in[0], NULL, &a) || disir_archive_append_entry (arc::in[0], a, "g", "a") || disir_archive_finalize (arc::in[0], dest.c_str (), &a) || !fs::get (dest, existing)) abort ();
}
struct Fault { int err; bool cut; };
static std::vector<Fault> faults (const sys::Call &k)
{
    switch (k.nr)
    {
    case SYS_open: case SYS_openat: case SYS_creat: return { { EACCES, false }, { EMFILE, false }, { ENOSPC, false } };
    case SYS_write: case SYS_writev: case SYS_pwrite64: return { { ENOSPC, false }, { EIO, false }, { 0, true } };
    case SYS_read: case SYS_readv: case SYS_pread64: return { { EIO, false }, { 0, true } };
    case SYS_close: return { { EIO, false }, { ENOSPC, false } };
    case SYS_mkdir: case SYS_mkdirat: return { { EACCES, false }, { ENOSPC, false } };
    default: return { { EIO, false }, { EACCES, false } };
    }
}
static std::vector<sys::Call> trace[SCEN]; static std::vector<int> step[SCEN];
static const std::vector<sys::Call> &calls (Ctx &c, int scen)
{
    if (trace[scen].empty ())
        for (int i = 0; i < 2; i++) { layout (scen); sys::begin (); call (scen, 0); sys::end (); trace[scen].assign (sys::rec, sys::rec + sys::nrec); MC_CHECK (c, st_[3] == DISIR_STATUS_OK && !sys::overflow, "setup", "%s: begin %s append %s %s finalize %s (%s) overflow %d", SN[scen], st (st_[0]), st (st_[1]), st (st_[2]), st (st_[3]), disir_error (arc::in[0]), (int) sys::overflow); }
    return trace[scen];
}
static std::string around (const std::vector<sys::Call> &t, int k) { std::string r; for (int i = std::max (0, k - 2); i < (int) t.size () && i < k + 3; i++) r += strf ("%s%s\n", i == k ? "* " : "  ", sys::show (t[i]).c_str ()); return r; }
static std::string statuses () { std::string r; for (int i = 0; i < 4; i++) r += strf ("%s: %s; ", STEP[i], st (st_[i])); return r; }
// everything whose append succeeded, and nothing that was not asked for
static void complete (Ctx &c, int scen, const char *sig)
{
    std::map<Id, std::string> v; arc::clear_side (1); std::string e = arc::import_all (arc::in[1], dest, v); MC_CHECK (c, e.empty (), sig, "%s\nthe archive it claims to have written: %s", statuses ().c_str (), e.c_str ());
    arc::Content got = arc::content (1), want, may = source; if (scen >= SAME) want[IDS[0]] = source[IDS[0]]; else may.erase (IDS[0]); if (st_[1] == DISIR_STATUS_OK) want[IDS[1]] = source[IDS[1]]; if (st_[2] == DISIR_STATUS_OK) for (int k = 2; k < 4; k++) want[IDS[k]] = source[IDS[k]];
    for (auto &x : want) MC_CHECK (c, got.count (x.first) && got[x.first] == x.second, sig, "%s\nthe archive restores %s %s", statuses ().c_str (), arc::show (x.first).c_str (), got.count (x.first) ? "with other content" : "not at all");
    for (auto &x : got) MC_CHECK (c, may.count (x.first) && may[x.first] == x.second, sig, "%s\nthe archive restores %s wrongly", statuses ().c_str (), arc::show (x.first).c_str ());
}
template <typename Start> static void judge (Ctx &c, int scen, int react, const std::string &sysname, bool cleaning, Start start)
{
    c.risk ("crash"); layout (scen); start (); call (scen, react); sys::end (); int injected = 0; bool escaped = false; for (int i = 0; i < sys::nrec; i++) { injected += sys::rec[i].injected; escaped |= sys::rec[i].escaped; } if (!injected) c.prune ();
    int open = 0; for (bool b : sys::fd_in) open += b; MC_CHECK (c, !escaped, "escape", "the export leaves its directories"); std::string sig;
    bool stored = st_[3] == DISIR_STATUS_OK, had = scen == OVER || scen == SAME || scen == MOVEOVER; std::string now, from; bool there = fs::get (dest, now); bool fthere = fs::get (orig, from); bool kept = ar; std::string res = statuses ();
    if (kept) { enum disir_status s = st_[0] == DISIR_STATUS_OK ? disir_archive_finalize (arc::in[0], NULL, &ar) : DISIR_STATUS_OK; if (s != DISIR_STATUS_OK && !cleaning) c.fail ("discard", "discarding the archive after %s: %s", res.c_str (), st (s)); }
    sig = "fd-leak:" + sysname; MC_CHECK (c, open == 0 || kept, sig.c_str (), "%s\n%d files stay open", res.c_str (), open);
    if (stored) { MC_CHECK (c, !kept, "kept", "%s\nthe finished archive is not taken over", res.c_str ()); sig = "claims-success:" + sysname; complete (c, scen, sig.c_str ()); }
    else
    {
        sig = "destroys-existing:" + sysname; // failing to remove the archive it moved is an error though the new one is stored
        bool unremoved = false; for (int i = 0; i < sys::nrec; i++) unremoved |= sys::rec[i].injected && sys::rec[i].nr == SYS_unlink && strstr (sys::rec[i].path, "from.disir"); if (had && unremoved && there && now != existing) complete (c, scen, sig.c_str ());
        else if (had) MC_CHECK (c, there && now == existing, sig.c_str (), "%s\nthe existing archive is %s", res.c_str (), there ? "damaged" : "gone");
        if (scen >= MOVE && !(fthere && from == existing)) { sig = "destroys-source:" + sysname; MC_CHECK (c, !fthere && there, sig.c_str (), "%s\nthe archive it extends is %s", res.c_str (), fthere ? "damaged" : "gone"); complete (c, scen, sig.c_str ()); }
        if (st_[3] == DISIR_STATUS_NOT_EXIST || st_[3] == DISIR_STATUS_PERMISSION_ERROR) c.outcome ("finalize may be repeated");
    }
    sig = "temporary-files:" + sysname; std::string l = arc::left (); for (auto &f : fs::snap (arc::home)) if (arc::home + "/" + f.first != dest && arc::home + "/" + f.first != orig) l += "(home)" + f.first + " "; MC_CHECK (c, l.empty () || cleaning, sig.c_str (), "%s\ntemporary files stay: %s", res.c_str (), l.c_str ());
    std::string d = arc::diff (source, arc::content (0)); MC_CHECK (c, d.empty (), "source", "the exported configs changed: %s", d.c_str ());
    size_t grown = 0; for (int r = 0; r < 2; r++) { layout (scen); size_t h0 = heap (); start (); call (scen, react); sys::end (); if (ar) disir_archive_finalize (arc::in[0], NULL, &ar); disir_error_clear (arc::in[0]); size_t h1 = heap (); grown = h1 - h0; if (!grown) break; }
    sig = "leak:" + sysname; MC_CHECK (c, grown == 0, sig.c_str (), "%s\nkeeps %zd bytes", res.c_str (), (ssize_t) grown);
    // and the next export works
    layout (scen); call (scen, 0); MC_CHECK (c, st_[3] == DISIR_STATUS_OK, "retry", "the export after the fault cleared: %s", statuses ().c_str ()); complete (c, scen, "retry");
    c.outcome (res); c.validated ();
}
static bool off (Ctx &c) { if (arc::ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
static void explore (Ctx &c, bool persist)
{
    if (off (c)) return; int scen = c.choose (SCEN); const std::vector<sys::Call> &t = calls (c, scen); int k = c.choose (t.size ()); std::vector<Fault> F = faults (t[k]); if (!c.thorough () && F.size () > 2) F.erase (F.begin () + 1); if (!c.thorough () && !F.back ().cut) F.resize (1); Fault f = F[c.choose (F.size ())]; int react = c.choose (2);
    c.note ("%s, %s, system call %d of %zu %s%s\n%s", SN[scen], react ? "carrying on" : "discarding it when an append fails", k, t.size (), f.cut ? "transfers only half" : strf ("fails with %s", strerror (f.err)).c_str (), persist ? " and so does every later one of its kind" : "", around (t, k).c_str ());
    const char *n = sys::name (t[k].nr); bool rm = t[k].nr == SYS_unlink || t[k].nr == SYS_unlinkat || t[k].nr == SYS_rmdir;
    // what follows the removal of the temporary archive only cleans up
    for (int i = (int) t.size () - 1; i >= 0; i--) if (t[i].nr == SYS_unlink && strstr (t[i].path, "/arc.")) { rm |= k >= i - 1; break; }
    if (t[k].nr == SYS_fstat && strstr (t[k].path, "/arc.")) c.prune (); // libarchive keeps the file open then
    judge (c, scen, react, strf ("%s-%s", SN[scen], n), rm || persist, [&] { if (persist) sys::begin_persistent (k, f.err, f.cut); else sys::begin (k, f.err, f.cut); });
    std::string key = strf ("%d,%d,%d,%d,%d,%d", persist, scen, k, f.err, f.cut, react); c.state (key); c.nontrivial (key);
}
static void single (Ctx &c) { explore (c, false); }
static void persistent (Ctx &c) { explore (c, true); }
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C24", "fault_enumeration",
        "Five kinds of export (new, over an existing archive, extending one in place, to another place, and over another one) of an entry and a group, with each of their system calls failing with every error it can return, or transferring half: success must come with an archive that restores everything whose append succeeded, an error must leave the existing archive intact, and no temporary file, open file or memory may stay.",
        { "temporary files may stay when removing them is what fails", "the whole file system state after the fault is what the completed calls made it" }, init, NULL };
    return mc::main (argc, argv, i, { { "single", 3, single, false, 20 }, { "persistent", 3, persistent, true, 20 } });
}
