// C19: a failing file operation is reported and never passes for success
// technique: exhaustive fault enumeration on the real code: every system call of every file operation x every error it can return, short transfers and persistent failures, with the outcome compared to the complete effect
#include "fs.h"
#include "sys.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::string base, MO, CF[2]; static disir_instance *in; static Mold M, N; static Cfg A, B; static disir_mold *mp, *np; static disir_config *ap, *bp; static fs::Snap start[2];
static const char *G[] = { "json", "toml" }; static bool ready;
static void layout ()
{
    fs::clear (base); disir_libdisir_config_to_disk (in, ap, (base + "/lib.toml").c_str ()); for (int g = 0; g < 2; g++) fs::mkdirs (CF[g] + "/d"); fs::mkdirs (MO + "/d"); fs::mkdirs (MO + "/new/sub"); fs::put (MO + "/e.json", fs::mold_text (M)); fs::put (MO + "/d/__namespace.json", fs::mold_text (M)); fs::put (MO + "/d/o.o.json", "{\"sync\" : [{\"namespace\" : \"1.0\", \"override\" : \"1.0\"}],\n \"override\" : {\"k\" : {\"version\" : \"1.0\", \"value\" : 77}}}");
    fs::put (MO + "/new/sub/__namespace.json", fs::mold_text (M));
    for (int g = 0; g < 2; g++) { disir_config_write (in, G[g], "e", ap); disir_config_write (in, G[g], "d/b", bp); disir_config_write (in, G[g], "d/o", bp); }
}
static void init (const char *s)
{
    base = s; MO = base + "/m"; CF[0] = base + "/cj"; CF[1] = base + "/ct"; M.docs = { { Ver (1, 0), std::string (1500, 'd') } }; M.kids = { MEl::kv ("k", Val::in (1)), MEl::kv ("t", Val::str ("")).with (Res::min (0)).with (Res::max (9)), MEl::section ("s", { MEl::kv ("f", Val::fl (0.5)) }).with (Res::min (0)) }; N.kids = { MEl::kv ("z", Val::bo (true)) };
    A.v = Ver (1, 0); A.kids = { CEl::kv ("k", Val::in (5)), CEl::kv ("t", Val::str (std::string (1200, 'x'))), CEl::kv ("t", Val::str (std::string (1300, 'y') + "\n")), CEl::section ("s", { CEl::kv ("f", Val::fl (2.5)) }) }; B.v = Ver (1, 0); B.kids = { CEl::kv ("k", Val::in (6)) };
    Steps S; if (build_mold (M, &mp, &S) || build_mold (N, &np, &S) || build_config (A, mp, &ap, &S) || build_config (B, mp, &bp, &S)) abort (); in = fs::empty (); for (int g = 0; g < 2; g++) { fs::mkdirs (CF[g]); fs::attach (in, g, CF[g], MO, G[g]); } fs::mold_text (M); ready = sys::arm (base.c_str ()); layout ();
}
enum { WNEW, WOVER, WSHORT, WDIRS, READ, READO, READM, REMOVE, QUERY, LIST, MNEW, MOVER, MREAD, MREADN, MREADO, MQUERY, MLIST, LIBW, LIBR, OPS };
static const char *ON[] = { "write a new config", "overwrite a config", "overwrite a config by a shorter one", "write a config into new directories", "read a config", "read a config with an override", "read a config with its mold given", "remove a config", "query a config", "list the configs", "write a new mold", "overwrite a mold", "read a mold", "read a namespace mold", "read a mold with an override", "query a mold", "list the molds", "write the library configuration", "read the library configuration" };
struct Out { enum disir_status s; bool handed; std::string err, result; };
static std::string listed (disir_entry *e) { std::vector<std::string> l; for (disir_entry *n; e; e = n) { n = e->next; l.push_back (e->de_entry_name + strf ("/%x", e->de_attributes)); disir_entry_finished (&e); } std::sort (l.begin (), l.end ()); std::string r; for (auto &x : l) r += x + " "; return r; }
static disir_config *gp; static disir_mold *hp; static disir_entry *ep; static enum disir_status status;
static void call (int op, int g)
{
    gp = NULL; hp = NULL; ep = NULL;
    switch (op)
    {
    case WNEW: status = disir_config_write (in, G[g], "d/n", ap); break; case WOVER: status = disir_config_write (in, G[g], "d/b", ap); break; case WSHORT: status = disir_config_write (in, G[g], "e", bp); break; case WDIRS: status = disir_config_write (in, G[g], "new/sub/n", ap); break;
    case READ: status = disir_config_read (in, G[g], "e", NULL, &gp); break; case READO: status = disir_config_read (in, G[g], "d/o", NULL, &gp); break; case READM: status = disir_config_read (in, G[g], "e", mp, &gp); break; case REMOVE: status = disir_config_remove (in, G[g], "e"); break; case QUERY: status = disir_config_query (in, G[g], "d/b", &ep); break; case LIST: status = disir_config_entries (in, G[g], &ep); break;
    case MNEW: status = disir_mold_write (in, G[g], "x/y/n", mp); break; case MOVER: status = disir_mold_write (in, G[g], "e", np); break; case MREAD: status = disir_mold_read (in, G[g], "e", &hp); break; case MREADN: status = disir_mold_read (in, G[g], "d/b", &hp); break; case MREADO: status = disir_mold_read (in, G[g], "d/o", &hp); break; case MQUERY: status = disir_mold_query (in, G[g], "d/b", &ep); break; case MLIST: status = disir_mold_entries (in, G[g], &ep); break;
    case LIBW: status = disir_libdisir_config_to_disk (in, ap, (base + "/lib.toml").c_str ()); break; case LIBR: status = disir_libdisir_config_from_disk (in, (base + "/lib.toml").c_str (), mp, &gp); break;
    }
}
static std::string shown (disir_config *p) { Cfg x; std::string e; return dump_config (p, x, e) ? show (x) : "? " + e; }
static std::string shown (disir_mold *p) { static const std::vector<Ver> pv = { Ver (1, 0) }; Mold x; std::string e; return dump_mold (p, x, pv, e) ? show (canon (x, pv)) : "? " + e; }
// what the call handed out, or what is stored after it
static std::string effect (int op, int g, bool &handed)
{
    handed = gp || hp || (ep && op != LIST && op != MLIST); std::string r = st (status); r += " ";
    if (gp) { r += shown (gp); disir_config_finished (&gp); } if (hp) { r += shown (hp); disir_mold_finished (&hp); }
    if (op == LIST || op == MLIST) r += listed (ep); else if (ep) r += listed (ep);
    if (status == DISIR_STATUS_OK || status == DISIR_STATUS_EXISTS)
    {
        const char *id = op == WNEW ? "d/n" : op == WOVER ? "d/b" : op == WSHORT || op == REMOVE || op == MOVER ? "e" : op == WDIRS ? "new/sub/n" : op == MNEW ? "x/y/n" : NULL;
        if (id && op < MNEW) { disir_config *c = NULL; enum disir_status s = disir_config_read (in, G[g], id, NULL, &c); r += strf (" stored: %s ", st (s)); if (c) { r += shown (c); disir_config_finished (&c); } }
        else if (op == LIBW) { disir_config *c = NULL; enum disir_status s = disir_libdisir_config_from_disk (in, (base + "/lib.toml").c_str (), mp, &c); r += strf (" stored: %s ", st (s)); if (c) { r += shown (c); disir_config_finished (&c); } }
        else if (id) { disir_mold *m = NULL; enum disir_status s = disir_mold_read (in, G[g], id, &m); r += strf (" stored: %s ", st (s)); if (m) { r += shown (m); disir_mold_finished (&m); } }
    }
    return r;
}
// where the operation may leave something
static std::string own_prefix (int op, int g)
{
    static const char *mine[] = { "d/n.", "d/b.", "e.", "new/", "-", "-", "-", "e.", "-", "-", "x", "e.", "-", "-", "-", "-", "-", "lib.toml", "-" };
    return std::string (op == LIBW ? "" : op == MNEW || op == MOVER ? "m/" : g ? "ct/" : "cj/") + mine[op];
}
// the file it writes, removes or reads
static std::string own_file (int op, int g) { std::string p = own_prefix (op, g); return op == LIBW ? p : op == MNEW ? p + "/y/n.json" : op == MOVER ? p + "json" : op == WDIRS ? p + "sub/n." + G[g] : p + G[g]; }
static const std::string *at (const fs::Snap &s, const std::string &f) { auto i = s.find (f); return i == s.end () ? NULL : &i->second; }
static bool same (const std::string *a, const std::string *b) { return a && b ? *a == *b : a == b; }
static bool writes (int op) { return op <= WDIRS || op == MNEW || op == MOVER || op == LIBW; }
static std::string clean[OPS][2], full[OPS][2]; static std::vector<sys::Call> trace[OPS][2];
static const std::vector<sys::Call> &calls (Ctx &c, int op, int g)
{
    if (trace[op][g].empty ())
    {
        bool h; for (int i = 0; i < 2; i++) { layout (); disir_error_clear (in); sys::begin (); call (op, g); sys::end (); trace[op][g].assign (sys::rec, sys::rec + sys::nrec); clean[op][g] = effect (op, g, h); if (writes (op)) full[op][g] = fs::snap (base)[own_file (op, g)]; }
        MC_CHECK (c, status == DISIR_STATUS_OK || status == DISIR_STATUS_EXISTS, "setup", "%s (%s): %s (%s)", ON[op], G[g], st (status), disir_error (in));
    }
    return trace[op][g];
}
struct Fault { int err; bool cut; };
static std::vector<Fault> faults (const sys::Call &k)
{
    switch (k.nr)
    {
    case SYS_open: case SYS_openat: case SYS_creat: return { { EACCES, false }, { EMFILE, false }, { EIO, false }, { ENOSPC, false }, { EROFS, false }, { EINTR, false } };
    case SYS_write: case SYS_writev: case SYS_pwrite64: return { { ENOSPC, false }, { EIO, false }, { EINTR, false }, { 0, true } };
    case SYS_read: case SYS_readv: case SYS_pread64: return { { EIO, false }, { EINTR, false }, { 0, true } };
    case SYS_close: return { { EIO, false }, { ENOSPC, false }, { EINTR, false } };
    case SYS_mkdir: case SYS_mkdirat: return { { EACCES, false }, { ENOSPC, false }, { EROFS, false }, { EIO, false } };
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: case SYS_rename: return { { EACCES, false }, { EBUSY, false }, { EIO, false }, { EROFS, false } };
    case SYS_getdents64: return { { EIO, false } };
    default: return { { EIO, false }, { EACCES, false }, { ENOMEM, false } };
    }
}
static std::string around (const std::vector<sys::Call> &t, int k) { std::string r; for (int i = std::max (0, k - 2); i < (int) t.size () && i < k + 3; i++) r += strf ("%s%s\n", i == k ? "* " : "  ", sys::show (t[i]).c_str ()); return r; }
static bool succeeded (enum disir_status s) { return s == DISIR_STATUS_OK || s == DISIR_STATUS_EXISTS; }
static void release () { if (gp) disir_config_finished (&gp); if (hp) disir_mold_finished (&hp); while (ep) { disir_entry *n = ep->next; disir_entry_finished (&ep); ep = n; } }
static fs::Snap others (int op, int g)
{
    fs::Snap x = fs::snap (base); std::string own = own_prefix (op, g); for (auto i = x.begin (); i != x.end ();) if (!i->first.compare (0, own.size (), own) || (op == WDIRS && i->first == own.substr (0, own.size () - 1))) i = x.erase (i); else ++i;
    return x;
}
// what the operation does under the faults: start() arms them
template <typename Start> static void judge (Ctx &c, int op, int g, const char *kind, Start start)
{
    layout (); fs::Snap before = others (op, g), whole = fs::snap (base); bool handed; disir_error_clear (in); c.risk ("crash");
    start (); call (op, g); sys::end ();
    int injected = 0, open = 0, first = -1; bool escaped = false, lost = false; for (bool b : sys::fd_in) open += b;
    for (int i = 0; i < sys::nrec; i++)
    {
        sys::Call &k = sys::rec[i]; escaped |= k.escaped; if (!k.injected) continue;
        if (!injected++) first = i;
        if (k.nr == SYS_close && k.ret != -EINTR) for (int j = 0; j < i; j++) lost |= sys::rec[j].nr == SYS_write && sys::rec[j].fd == k.fd && !strcmp (sys::rec[j].path, k.path);
    }
    if (!injected) c.prune ();
    std::string what = sys::name (sys::rec[first].nr); enum disir_status s = status; bool ok = succeeded (s), lists = op == LIST || op == MLIST;
    MC_CHECK (c, !escaped, "escape", "the call leaves its directories"); MC_CHECK (c, open == 0, "fd-leak", "%d files stay open", open);
    if (!ok) MC_CHECK (c, !(ep && !lists), "entry", "the failing query hands out an entry");
    release (); disir_error_clear (in);
    fs::Snap after = others (op, g); std::string d = fs::diff (before, after); MC_CHECK (c, d.empty (), "other-files", "the call (%s) affects other files: %s", st (s), d.c_str ());
    // a write that may not replace the file has to write into it
    if (writes (op) && !ok)
    {
        bool fallback = false, unlinks = false; for (int i = 0; i < sys::nrec; i++) { sys::Call &k = sys::rec[i]; if (!k.injected) continue; fallback |= (k.nr == SYS_open || k.nr == SYS_openat) && (k.ret == -EACCES || k.ret == -EROFS || k.ret == -EPERM); unlinks |= k.nr == SYS_unlink || k.nr == SYS_unlinkat; }
        fs::Snap now = fs::snap (base); std::string p = own_file (op, g); const std::string *n = at (now, p); if (!fallback) MC_CHECK (c, same (n, at (whole, p)) || (n && *n == full[op][g]), "half-written", "the failing write (%s) leaves %s", st (s), n ? quote (*n).substr (0, 300).c_str () : "nothing");
        if (!unlinks) for (auto &x : now) MC_CHECK (c, x.first == p || x.second == "/" || whole.count (x.first), "litter", "the failing write (%s) leaves %s", st (s), x.first.c_str ());
    }
    // once more, measured: the first time may fill caches
    size_t grown = 0; for (int round = 0; round < 2; round++)
    {
        layout (); disir_error_clear (in); size_t h0 = heap (); start (); call (op, g); sys::end (); enum disir_status again = status; release (); disir_error_clear (in); size_t h1 = heap ();
        if (again != s) c.fail ("unstable", "the same fault gives %s, then %s", st (s), st (again));
        grown = h1 - h0; if (!grown) break;
    }
    MC_CHECK (c, grown == 0, "leak", "the call (%s) keeps %zd bytes", st (s), (ssize_t) grown);
    // the instance reports a plugin whose listing fails in its log only
    if (ok && !lists)
    {
        layout (); disir_error_clear (in); start (); call (op, g); sys::end (); std::string e = effect (op, g, handed), sig = strf ("passes-for-success:%d-%s-%s", op, G[g], what.c_str ());
        MC_CHECK (c, e == clean[op][g], sig.c_str (), "the call succeeds with\n%s\nwithout the fault it gives\n%s", e.c_str (), clean[op][g].c_str ());
        sig = strf ("close-ignored:%d-%s", op, G[g]); MC_CHECK (c, !lost, sig.c_str (), "closing the written file fails and the call reports success");
    }
    else
    {
        // all entries or none: the plugin as a whole is left out
        if (ok) { layout (); disir_error_clear (in); start (); call (op, g); sys::end (); std::string e = effect (op, g, handed), sig = strf ("passes-for-success:%d-%s-%s", op, G[g], what.c_str ()); MC_CHECK (c, e == clean[op][g] || e == std::string (st (s)) + " ", sig.c_str (), "the listing gives %s, without the fault %s", e.c_str (), clean[op][g].c_str ()); }
        // an error may leave the operation half done: repeating it without the fault completes it
        layout (); disir_error_clear (in); start (); call (op, g); sys::end (); release (); disir_error_clear (in); fs::Snap left = fs::snap (base); call (op, g); std::string e = effect (op, g, handed); disir_error_clear (in);
        if (op == REMOVE && e != clean[op][g] && !left.count (own_prefix (op, g) + G[g])) { c.outcome ("removed"); e = clean[op][g]; }
        MC_CHECK (c, e == clean[op][g], "retry", "retrying after the fault cleared gives\n%s\nexpected\n%s", e.c_str (), clean[op][g].c_str ());
    }
    c.outcome (strf ("%s: %s %s %s", kind, ON[op], what.c_str (), st (s))); c.validated ();
}
struct Pick { int op, g, k; Fault f; std::string key; };
static Pick pick (Ctx &c, const char *kind)
{
    Pick p; p.op = c.choose (OPS); p.g = c.choose (2); const std::vector<sys::Call> &t = calls (c, p.op, p.g); p.k = c.choose (t.size ()); std::vector<Fault> F = faults (t[p.k]); p.f = F[c.choose (F.size ())]; p.key = strf ("%s,%d,%d,%d,%d,%d", kind, p.op, p.g, p.k, p.f.err, p.f.cut);
    c.note ("%s (%s), system call %d of %zu %s%s\n%s", ON[p.op], G[p.g], p.k, t.size (), p.f.cut ? "transfers only half" : strf ("fails with %s", strerror (p.f.err)).c_str (), *kind == 'p' ? " and so does every later one of its kind" : "", around (t, p.k).c_str ());
    return p;
}
static bool off (Ctx &c) { if (ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
static void done (Ctx &c, const std::string &key) { c.state (key); c.nontrivial (key); }
static void single (Ctx &c) { if (off (c)) return; Pick p = pick (c, "single"); judge (c, p.op, p.g, "single", [&] { sys::begin (p.k, p.f.err, p.f.cut); }); done (c, p.key); }
static void persistent (Ctx &c) { if (off (c)) return; Pick p = pick (c, "persistent"); judge (c, p.op, p.g, "persistent", [&] { sys::begin_persistent (p.k, p.f.err, p.f.cut); }); done (c, p.key); }
// the second fault hits a call that follows the first fault
static void pairs (Ctx &c)
{
    if (off (c)) return;
    Pick p = pick (c, "first"); layout (); disir_error_clear (in); sys::begin (p.k, p.f.err, p.f.cut); call (p.op, p.g); sys::end (); std::vector<sys::Call> t (sys::rec, sys::rec + sys::nrec); release (); disir_error_clear (in);
    if ((int) t.size () <= p.k + 1) c.prune ();
    int k = p.k + 1 + c.choose (t.size () - p.k - 1); std::vector<Fault> F = faults (t[k]); Fault f = F[c.choose (F.size ())];
    c.note ("then system call %d %s\n%s", k, f.cut ? "transfers only half" : strf ("fails with %s", strerror (f.err)).c_str (), around (t, k).c_str ());
    judge (c, p.op, p.g, "pair", [&] { sys::begin_pair (p.k, p.f.err, p.f.cut, k, f.err, f.cut); }); done (c, p.key + strf (" %d,%d,%d", k, f.err, f.cut));
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C19", "fault_enumeration",
        "Twenty-one file operations in JSON and TOML, among them the library's own configuration, each with every one of its system calls failing with every error the call can return, or transferring half, once or from then on (thorough: also with a second fault at every later call): success must come with the complete effect, an error must leave other entries alone and the written document as it was, keep no memory or open file, and a retry must succeed.",
        { "a failing close counts as data loss for a written file; EINTR from close does not", "a listing leaves out a plugin that fails as a whole: the instance reports it in its log", "the whole file system state after the fault is what the completed calls made it" }, init, NULL };
    return mc::main (argc, argv, i, { { "single", 3, single, false, 20 }, { "persistent", 3, persistent, false, 20 }, { "pairs", 4, pairs, true, 20 } });
}
