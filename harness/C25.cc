// C25: import verdicts and resolutions follow the decision table
// technique: exhaustive exploration of the real import: every combination of archived version and content, system mold, system entry, resolution sequence and finalization against a model of the documented decision table and the update semantics
#include "impw.h"
extern "C" int mc_log_to_null;
static bool verdict_matches (enum disir_status s, const State &w)
{
    bool out = w.verdict == DISIR_STATUS_CONFIG_INVALID || w.verdict == DISIR_STATUS_NO_CAN_DO; return out ? s == w.verdict : s == w.verdict;
}
static int begin (Ctx &c, const std::string &file, disir_import **imp, std::vector<Entry> &es, bool first)
{
    int n = -1; enum disir_status s = disir_archive_import (arc::in[1], file.c_str (), imp, &n); MC_CHECK (c, s == DISIR_STATUS_OK && *imp && n == (int) es.size (), "import", "import: %s, %d entries (%s)", st (s), n, disir_error (arc::in[1]) ? disir_error (arc::in[1]) : "-");
    for (int k = 0; k < n; k++)
    {
        const char *e = NULL, *g = NULL, *v = NULL, *info = NULL; s = disir_import_entry_status (*imp, k, &e, &g, &v, &info); Entry *w = NULL; for (auto &x : es) if (e && g && x.id.second == e && arc::GROUPS[x.id.first].name == std::string (g)) w = &x; MC_CHECK (c, w && v, "entry", "unknown entry %s:%s", g ? g : "-", e ? e : "-");
        MC_CHECK (c, w == &es[k], "order", "entry %d is %s", k, arc::show (w->id).c_str ()); MC_CHECK (c, VERS[w->version].str () == v, "version", "%s: version %s", arc::show (w->id).c_str (), v);
        MC_CHECK (c, verdict_matches (s, w->s), "verdict", "%s: %s (%s), expected %s", show (*w).c_str (), st (s), info ? info : "-", st (w->s.verdict)); if (first) c.outcome (strf ("verdict %s, entry %s", st (s), KIND[w->y.kind]));
        const char *e2, *g2, *v2; MC_CHECK (c, disir_import_entry_status (*imp, k, &e2, &g2, &v2, NULL) == s && e2 == e && g2 == g && v2 == v, "verdict-again", "asking again answers differently");
    }
    const char *e, *g, *v; for (int k : { -1, n, n + 1 }) { MC_CHECK (c, disir_import_entry_status (*imp, k, &e, &g, &v, NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_import_resolve_entry (*imp, k, DISIR_IMPORT_FORCE) == DISIR_STATUS_INVALID_ARGUMENT, "bounds", "entry %d of %d", k, n); } return n;
}
static void resolve (Ctx &c, disir_import *imp, Entry &e, int k, int opt, bool first)
{
    State before = e.s; enum disir_status want = option (e.s, opt, e.y.mold), s = disir_import_resolve_entry (imp, k, (enum disir_import_option) opt); std::string b = strf ("%s %d%d%d", st (before.verdict), before.conflict, before.resolved, before.discarded);
    MC_CHECK (c, s == want || (want == DISIR_STATUS_INVALID_ARGUMENT && s != DISIR_STATUS_OK), "option", "%s: %s answers %s, expected %s", show (e).c_str (), ON[opt], st (s), st (want)); if (first) { c.transition (b, ON[opt]); c.outcome (strf ("%s when %s: %s", ON[opt], b.c_str (), st (s))); if (s == DISIR_STATUS_OK) c.nontrivial (b + ON[opt]); }
    const char *x, *g, *v; enum disir_status now = disir_import_entry_status (imp, k, &x, &g, &v, NULL); if (!e.s.resolved && !e.s.discarded) MC_CHECK (c, verdict_matches (now, e.s), "verdict-after", "%s: after %s (%s) the verdict is %s, was %s", show (e).c_str (), ON[opt], st (s), st (now), st (e.s.verdict));
}
enum { F_REPORT, F_PLAIN, F_DISCARD, F_BAD, NFIN }; static const char *FN[] = { "import with report", "import", "discard", "an invalid option" };
static void finish (Ctx &c, disir_import **imp, std::vector<Entry> &es, int fin, bool first)
{
    arc::Content before = arc::content (1); import_report *rep = NULL;
    if (fin == F_BAD) { disir_import *old = *imp; for (int o : { 0, (int) O_UPDATE, (int) O_FORCE, (int) O_WITH, (int) O_OUT }) { enum disir_status s = disir_import_finalize (arc::in[1], (enum disir_import_option) o, imp, &rep); MC_CHECK (c, s == DISIR_STATUS_INVALID_ARGUMENT && *imp == old && !rep, "finalize-option", "finalizing with %s: %s", ON[o], st (s)); } MC_CHECK (c, arc::diff (before, arc::content (1)).empty (), "finalize-option", "a refused finalization writes"); fin = F_REPORT; }
    enum disir_status s = disir_import_finalize (arc::in[1], fin == F_DISCARD ? DISIR_IMPORT_DISCARD : DISIR_IMPORT_DO, imp, fin == F_PLAIN ? NULL : &rep); MC_CHECK (c, s == DISIR_STATUS_OK && !disir_error (arc::in[1]), "finalize", "finalize: %s (%s)", st (s), disir_error (arc::in[1]) ? disir_error (arc::in[1]) : "-"); MC_CHECK (c, !*imp, "finalize-import", "the finished import is not taken over");
    arc::Content after = arc::content (1), want = before;
    for (auto &e : es) if (fin != F_DISCARD && e.s.resolved)
    {
        std::string got; bool ok = holds (e.id, e.s.now, got); MC_CHECK (c, ok, "content", "%s: the system holds %s, expected %s", show (e).c_str (), got.c_str (), mm::show (e.s.now).c_str ()); want[e.id] = after[e.id];
        if (!e.s.updated) MC_CHECK (c, after[e.id] == text[arc::GROUPS[e.id.first].toml][e.version][e.content], "bytes", "%s: not the archived bytes", show (e).c_str ());
    }
    std::string d = arc::diff (want, after); MC_CHECK (c, d.empty (), "untouched", "entries not resolved for writing: %s", d.c_str ()); if (first) c.outcome (strf ("%s: %zu written", FN[fin], [&] { size_t n = 0; for (auto &e : es) n += fin != F_DISCARD && e.s.resolved; return n; } ()));
    if (fin == F_REPORT)
    {
        MC_CHECK (c, rep && rep->ir_entries == (int) es.size (), "report", "%d report lines", rep ? (int) rep->ir_entries : -1);
        for (size_t k = 0; k < es.size (); k++)
        {
            Entry &e = es[k]; bool out = e.s.verdict == DISIR_STATUS_NO_CAN_DO || e.s.verdict == DISIR_STATUS_CONFIG_INVALID; std::string l = rep->ir_entry[k] ? rep->ir_entry[k] : "(none)", w = out ? "Not importable:" : e.s.resolved ? "Imported:" : "Discarded:";
            MC_CHECK (c, !l.compare (0, w.size (), w) && l.find (e.id.second, w.size ()) != std::string::npos && (w != "Imported:" || l.find ("(" + e.s.now.v.str () + ")") != std::string::npos), "report", "%s: reported as '%s', expected %s", show (e).c_str (), l.c_str (), w.c_str ());
        }
        MC_CHECK (c, disir_import_report_destroy (&rep) == DISIR_STATUS_OK && !rep, "report", "the report cannot be destroyed");
    }
    else MC_CHECK (c, !rep, "report", "a report without an import");
    MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ()); MC_CHECK (c, fs::snap (arc::home).size () == 1, "archive", "the archive directory changed");
}
static bool off (Ctx &c) { if (arc::ready) return false; c.state ("no seccomp"); c.nontrivial ("no seccomp"); return true; }
static std::string state_of (const std::vector<Entry> &es) { std::string r; for (auto &e : es) r += show (e) + "\n"; return r; }
// one import session: resolutions (entry, option), then the finalization
static void session (Ctx &c, std::vector<Entry> es, const std::vector<std::pair<int, int>> &ops, int fin)
{
    clean (); std::vector<Arch> as; for (auto &e : es) { place (e.id, e.y); e.s = verdict (e.version, e.content, e.y); as.push_back (arch (e)); } std::string t; for (auto &o : ops) t += strf ("%s: %s; ", arc::show (es[o.first].id).c_str (), ON[o.second]); c.note ("%s%s%s\n", state_of (es).c_str (), t.c_str (), FN[fin]); c.risk ("crash"); c.state (state_of (es) + t);
    arc::Content sys0 = arc::content (1);
    { std::vector<State> d; for (auto &e : es) d.push_back (e.s); for (auto &o : ops) { State &s = d[o.first]; if (s.discarded && o.second != O_FORCE && o.second != O_DISCARD) c.prune (); if (s.discarded && s.updated && o.second == O_FORCE) c.prune (); option (s, o.second, es[o.first].y.mold); } } // a discarded resolution leaves open what the other options do
    std::string file = archive (as); size_t h = 0; int fds = arc::open_files ();
    for (int round = 0; round < 4; round++)
    {
        h = heap (); std::vector<Entry> w = es; disir_import *imp = NULL; begin (c, file, &imp, w, !round); MC_CHECK (c, arc::diff (sys0, arc::content (1)).empty (), "reading", "reading the archive changes the system"); for (auto &o : ops) resolve (c, imp, w[o.first], o.first, o.second, !round); finish (c, &imp, w, fin, !round);
        { std::vector<Entry> ().swap (w); } size_t h1 = heap (); if ((round || ops.size () > 1) && h1 == h) break; MC_CHECK (c, round < 3, "leak", "the import keeps %zd bytes", (ssize_t) (h1 - h));
        arc::clear_side (1); for (auto &x : sys0) arc::store (1, x.first, x.second);
    }
    MC_CHECK (c, arc::open_files () == fds, "descriptors", "the import leaves %d descriptors open", arc::open_files () - fds); c.validated ();
}
static bool pick_system (Ctx &c, int version, System &y)
{
    y.mold = c.choose (NM + 3) - 3; y.version = y.content = 0; y.kind = System::ABSENT; if (y.mold < 0) { y.kind = c.choose (2) ? System::VALID : System::ABSENT; y.version = version; return true; }
    y.kind = (decltype (y.kind)) c.choose (4); if (y.kind == System::VALID) { y.version = c.choose (NM); y.content = c.choose (NVALID); if (!makes (y.version, y.content)) c.prune (); } return true;
}
static void single (Ctx &c)
{
    if (off (c)) return; Entry e; bool toml = c.choose (2); e.id = Id (toml ? 1 : 0, "d/a"); e.version = c.choose (NM); e.content = c.choose (NCONTENT); if (!makes (e.version, e.content)) c.prune (); pick_system (c, e.version, e.y); if (!c.thorough () && e.y.kind == System::VALID && e.y.content != e.content && (toml || e.y.content >= LARGE || e.y.version == 1)) c.prune ();
    State s = verdict (e.version, e.content, e.y); bool out = s.verdict == DISIR_STATUS_NO_CAN_DO || s.verdict == DISIR_STATUS_CONFIG_INVALID; std::vector<std::pair<int, int>> ops; int depth = out ? 1 : c.thorough () ? 3 : 2; for (int i = 0; i < depth; i++) { int o = c.choose (NOPT + 1); if (o == NOPT) break; if (i && !c.thorough ()) { State d = s; if (option (d, ops[0].second, e.y.mold) == DISIR_STATUS_INVALID_ARGUMENT || (ops[0].second != O_DISCARD && !d.resolved && !s.conflict && o != O_FORCE)) c.prune (); } ops.push_back ({ 0, o }); }
    int fin = ops.size () == 1 ? c.choose (NFIN) : F_REPORT; mc_log_to_null = ops.size () < 2 && fin == F_REPORT; session (c, { e }, ops, fin); mc_log_to_null = 1; // formatting every message is slow
}
// two entries do not influence each other
static void pairs (Ctx &c)
{
    if (off (c)) return; static const struct { int version, content; System y; } CASES[] = { { 3, USER, { 3, System::ABSENT, 0, 0 } }, { 0, USER, { 3, System::ABSENT, 0, 0 } }, { 0, LARGE, { 3, System::VALID, 1, USER } }, { 3, USER, { 3, System::VALID, 3, USER } }, { 3, USER, { 2, System::ABSENT, 0, 0 } }, { 1, WRONG, { 3, System::ABSENT, 0, 0 } }, { 1, EXTRA, { 3, System::VALID, 0, EXTRA } }, { 0, USER, { -1, System::ABSENT, 0, 0 } } };
    enum { NC = sizeof CASES / sizeof *CASES }; static const Id IDS[] = { Id (0, "a"), Id (0, "a.b"), Id (0, "d/a"), Id (1, "a"), Id (2, "a") }; int ia = c.choose (5), ib = c.choose (5); if (ib <= ia) c.prune (); std::vector<Entry> es;
    for (int i : { ia, ib }) { Entry e; e.id = IDS[i]; auto &k = CASES[c.choose (NC)]; e.version = k.version; e.content = k.content; e.y = k.y; es.push_back (e); } if (!c.thorough () && !(ia == 0 && ib == 3)) c.prune ();
    std::vector<std::pair<int, int>> ops; static const int OPT[] = { O_UPDATE, O_FORCE, O_DO, O_DISCARD, O_WITH }; for (int i = 0; i < 2; i++) { int o = c.choose (11); if (o == 10) break; ops.push_back ({ o / 5, OPT[o % 5] }); } session (c, es, ops, F_REPORT);
}
// groups that cannot be imported
static void unsupported (Ctx &c)
{
    if (off (c)) return; static const struct { const char *backend, *group; bool second; } G[] = { { "JSON", "nofd", false }, { "JSON", "nomold", false }, { "JSON", "noread", false }, { "JSON", "moved", false }, { "JSON", "gone", false }, { "OTHER", "g", false }, { "TOML", "g", false }, { "JSON", "h", false }, { "json", "g", false }, { "J", "g", false } };
    auto &g = G[c.choose (sizeof G / sizeof *G)]; bool present = c.choose (2), with = c.choose (2); int opt = c.choose (NOPT), fin = c.choose (3); clean (); System y = { 3, present ? System::VALID : System::ABSENT, 3, USER }; place (Id (0, "a"), y); place (Id (1, "a"), y); place (Id (1, "ok"), { 3, System::ABSENT, 0, 0 });
    std::vector<Arch> as; as.push_back ({ g.backend, g.group, "a", "2.0", text[!strcmp (g.backend, "TOML")][3][USER] }); Entry ok; ok.id = Id (1, "ok"); ok.version = 3; ok.content = USER; ok.y = { 3, System::ABSENT, 0, 0 }; if (with) as.push_back (arch (ok)); c.note ("backend %s group %s%s, option %s, %s\n", g.backend, g.group, with ? " and an importable entry" : "", ON[opt], FN[fin]); c.risk ("crash"); c.state (strf ("%s %s %d %d %d", g.backend, g.group, present, with, opt));
    std::string file = archive (as); arc::Content before = arc::content (1);
    for (int round = 0; round < 3; round++)
    {
        size_t h = heap (); disir_import *imp = NULL; int n = -1; enum disir_status s = disir_archive_import (arc::in[1], file.c_str (), &imp, &n); MC_CHECK (c, s == DISIR_STATUS_OK && imp && n == (with ? 2 : 1), "import", "import: %s (%s)", st (s), disir_error (arc::in[1]) ? disir_error (arc::in[1]) : "-");
        for (int k = 0; k < n; k++)
        {
            const char *e = NULL, *gr = NULL, *v = NULL, *info = NULL; s = disir_import_entry_status (imp, k, &e, &gr, &v, &info); bool good = with && !strcmp (e, "ok"); if (!round) c.outcome (strf ("%s: %s (%s)", g.group, st (s), info ? info : "-")); MC_CHECK (c, s == (good ? DISIR_STATUS_OK : DISIR_STATUS_NO_CAN_DO), "verdict", "%s:%s from backend %s: %s (%s)", gr, e, g.backend, st (s), info ? info : "-");
            if (good) { s = disir_import_resolve_entry (imp, k, DISIR_IMPORT_DO); MC_CHECK (c, s == DISIR_STATUS_OK, "option", "the other entry cannot be imported: %s", st (s)); } else { s = disir_import_resolve_entry (imp, k, (enum disir_import_option) opt); MC_CHECK (c, s != DISIR_STATUS_OK, "option", "%s:%s: %s answers %s", gr, e, ON[opt], st (s)); c.nontrivial (strf ("%s %d", g.group, opt)); }
        }
        std::vector<Entry> none; import_report *rep = NULL; s = disir_import_finalize (arc::in[1], fin == F_DISCARD ? DISIR_IMPORT_DISCARD : DISIR_IMPORT_DO, &imp, fin == F_REPORT ? &rep : NULL); MC_CHECK (c, s == DISIR_STATUS_OK && !imp, "finalize", "finalize: %s", st (s)); if (rep) disir_import_report_destroy (&rep);
        { arc::Content w = before, now = arc::content (1); if (with && fin != F_DISCARD) w[ok.id] = text[1][3][USER]; std::string d = arc::diff (w, now); MC_CHECK (c, d.empty (), "content", "%s", d.c_str ()); } MC_CHECK (c, arc::left ().empty (), "temporary-files", "temporary files stay: %s", arc::left ().c_str ());
        size_t h1 = heap (); if (h1 == h) break; MC_CHECK (c, round < 2, "leak", "the import keeps %zd bytes", (ssize_t) (h1 - h)); arc::clear_side (1); for (auto &x : before) arc::store (1, x.first, x.second);
    }
    c.validated ();
}
// an archive may hold no entries
static void none (Ctx &c)
{
    if (off (c)) return; int fin = c.choose (3), form = c.choose (2); clean (); c.note ("an archive without entries, %s\n", FN[fin]); c.risk ("crash"); std::vector<tar::Item> it; it.push_back ({ "metadata.toml", metadata (libdisir_version_string, form ? std::vector<Arch> { { "JSON", "g", "", "", "" } } : std::vector<Arch> ()) + (form ? "" : "backend = []\n") }); if (form) it.push_back ({ "JSON/entries.toml", "[g]\n" }); std::string p = arc::home + "/in.disir"; fs::put (p, tar::make (it)); c.state (strf ("%d %d", fin, form)); c.nontrivial (strf ("%d", form));
    disir_import *imp = NULL; int n = -1; enum disir_status s = disir_archive_import (arc::in[1], p.c_str (), &imp, &n); c.outcome (st (s)); if (s != DISIR_STATUS_OK) { MC_CHECK (c, !imp, "import", "a refused import is returned"); return; } MC_CHECK (c, n == 0 && imp, "import", "%d entries", n); import_report *rep = NULL;
    s = disir_import_finalize (arc::in[1], fin == F_DISCARD ? DISIR_IMPORT_DISCARD : DISIR_IMPORT_DO, &imp, fin == F_REPORT ? &rep : NULL); MC_CHECK (c, s == DISIR_STATUS_OK && !imp, "finalize", "finalize: %s", st (s)); if (rep) { MC_CHECK (c, rep->ir_entries == 0, "report", "%d lines", (int) rep->ir_entries); disir_import_report_destroy (&rep); } MC_CHECK (c, arc::left ().empty () && arc::content (1).empty (), "files", "files appear"); c.validated ();
}
// a failing system call while writing: the report tells which entries were written
static void write_faults (Ctx &c)
{
    if (off (c)) return; clean (); static const int ERR[] = { EIO, ENOSPC, EACCES }; int present = c.choose (2), err = ERR[c.choose (3)], cut = c.choose (2); std::vector<Entry> es; std::vector<Arch> as; for (int i = 0; i < 3; i++) { Entry e; e.id = i == 2 ? Id (1, "b") : Id (0, i ? "b" : "a"); e.version = 3; e.content = i == 1 ? EXTRA : USER; e.y = { 3, present ? System::VALID : System::ABSENT, 3, DEFAULTS }; e.s = verdict (e.version, e.content, e.y); place (e.id, e.y); es.push_back (e); as.push_back (arch (e)); }
    std::string file = archive (as); arc::Content before = arc::content (1); int total = 0, at = 0; std::vector<size_t> keep;
    for (int run = 0; run < 2; run++)
    {
        arc::clear_side (1); for (auto &x : before) arc::store (1, x.first, x.second); disir_import *imp = NULL; int n = -1; enum disir_status s = disir_archive_import (arc::in[1], file.c_str (), &imp, &n); MC_CHECK (c, s == DISIR_STATUS_OK && n == 3, "import", "%s", st (s)); for (int k = 0; k < n; k++) MC_CHECK (c, disir_import_resolve_entry (imp, k, DISIR_IMPORT_FORCE) == DISIR_STATUS_OK, "option", "cannot be forced");
        import_report *rep = NULL; sys::begin (run ? at : -1, err, cut ? 1 : -1); s = disir_import_finalize (arc::in[1], DISIR_IMPORT_DO, &imp, &rep); sys::end (); if (sys::overflow) c.fail ("overflow", "too many system calls");
        if (!run) { MC_CHECK (c, s == DISIR_STATUS_OK, "finalize", "%s", st (s)); total = sys::nrec; at = c.choose (total); c.state (strf ("%d %d %d %d", present, err, cut, at)); if (rep) disir_import_report_destroy (&rep); continue; }
        bool hit = false; std::string call; for (int i = 0; i < sys::nrec; i++) if (sys::rec[i].injected) { hit = true; call = sys::show (sys::rec[i]); } c.note ("%s fails with %s\n", call.c_str (), strerror (err)); std::string msg = disir_error (arc::in[1]) ? disir_error (arc::in[1]) : ""; disir_error_clear (arc::in[1]); c.transition (strf ("%d", at), call);
        MC_CHECK (c, !imp, "finalize-import", "the finished import is not taken over (%s)", st (s)); MC_CHECK (c, rep && rep->ir_entries == 3, "report", "no report (%s)", st (s)); int failed = 0; arc::Content now = arc::content (1);
        for (int k = 0; k < 3; k++)
        {
            std::string l = rep->ir_entry[k] ? rep->ir_entry[k] : "(none)"; bool bad = !l.compare (0, 7, "Failed:"); failed += bad; std::string want = as[k].text; c.outcome (strf ("%d %s", hit, l.substr (0, l.find (':')).c_str ()));
            MC_CHECK (c, bad || !l.compare (0, 9, "Imported:"), "report", "%s is reported as '%s'", arc::show (es[k].id).c_str (), l.c_str ()); if (!bad) MC_CHECK (c, now[es[k].id] == want, "content", "%s is reported as imported after %s failed, but is not: %s", arc::show (es[k].id).c_str (), call.c_str (), now.count (es[k].id) ? "differs" : "missing");
        }
        MC_CHECK (c, failed <= 1, "others", "one failing call makes %d entries fail", failed); MC_CHECK (c, (failed > 0) == !msg.empty () || s != DISIR_STATUS_OK, "error", "%d entries failed: %s", failed, msg.c_str ()); if (failed) c.nontrivial (call); disir_import_report_destroy (&rep);
    }
    c.validated ();
}
static void reset (const char *) { disir_error_clear (arc::in[0]); disir_error_clear (arc::in[1]); }
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C25", "model_checking", "a JSON or TOML entry archived at each of the mold's versions with each content (valid, changed by the user, invalid, malformed, empty), against every mold on the system (several versions, none, malformed, invalid, no plugin), every entry on the system (none, valid at each version and content, invalid, unreadable), every sequence of up to two (thorough three) of the resolutions, and every way to finalize; two entries of one archive with interleaved resolutions; groups that cannot be imported; an archive without entries; and every system call of the writing failing, or transferring a part",
        { "archives are written by the harness in the archive format (uncompressed tar)", "an unreadable or invalid system entry makes the archived one not importable", "what the options do after a resolution was discarded is only checked for force and discard" }, init, reset };
    return mc::main (argc, argv, i, { { "single", 4, single }, { "pairs", 4, pairs }, { "unsupported", 3, unsupported }, { "none", 1, none }, { "write-faults", 2, write_faults } });
}
