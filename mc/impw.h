// The world of an import: one entry per archive member and system entry, with molds growing over four versions,
// and a model of the decision table that says what each resolution does.
#ifndef IMPW_H
#define IMPW_H
#include "arc.h"
#include "upd.h"
#include "tar.h"
#include <disir/version.h>
using namespace mc; using namespace mm; using arc::Id; using upd::Upd;
enum { NM = 4 }; static const Ver VERS[NM] = { Ver (1, 0), Ver (1, 1), Ver (1, 2), Ver (2, 0) };
static Mold M[NM]; static std::string mtext[NM]; static disir_mold *full;
// the mold of the entry, as it was at the n:th version
static Mold mold_at (int n)
{
    Mold m; auto upto = [&] (MEl e) { std::vector<Def> d; for (auto &x : e.defs) if (x.v <= VERS[n]) d.push_back (x); e.defs = d; std::vector<Res> r; for (auto &x : e.res) if (x.in <= VERS[n]) r.push_back (x); e.res = r; return e; };
    MEl k = MEl::kv ("k", Val::in (1)).def (VERS[1], Val::in (5)).def (VERS[3], Val::in (9)), f = MEl::kv ("f", Val::fl (0.5)).def (VERS[2], Val::fl (0.75));
    MEl r = MEl::kv ("r", Val::in (3)).with (Res::range (0, 10, VERS[2])), t = MEl::kv ("t", Val::str ("d")).with (Res::min (0)).with (Res::max (3));
    MEl s = MEl::section ("s", { upto (MEl::kv ("b", Val::bo (false)).def (VERS[3], Val::bo (true))) }).with (Res::min (0)).with (Res::max (1));
    m.kids = { upto (k), upto (f), upto (r), t, s }; if (n >= 1) m.kids.push_back (MEl::kv ("late", Val::in (7), VERS[1])); return m;
}
enum { DEFAULTS, USER, LARGE, EXTRA, NVALID, WRONG = NVALID, BROKEN, NCONTENT };
static const char *CN[] = { "defaults", "edited", "a value later refused", "repeated entries", "an invalid value", "malformed" };
// valid contents at a version
static Cfg cfg (int n, int k)
{
    Cfg c; c.v = VERS[n]; c.kids = generate (M[n].kids, c.v); auto set = [&] (const char *name, Val v) { for (auto &e : c.kids) if (e.name == name) e.val = v; };
    if (k == USER) { set ("k", Val::in (42)); set ("f", Val::fl (1 / 3.0)); set ("late", Val::in (8)); }
    if (k == LARGE) { set ("r", Val::in (50)); set ("k", Val::in (n ? 5 : 1)); }
    if (k == EXTRA) { std::vector<CEl> kk; for (auto &e : c.kids) if (e.name != "t" && e.name != "s") kk.push_back (e); c.kids = kk; c.kids.push_back (CEl::kv ("t", Val::str ("one\n\"two\""))); c.kids.push_back (CEl::kv ("t", Val::str (""))); c.kids.push_back (CEl::section ("s", { CEl::kv ("b", Val::bo (true)) })); }
    return c;
}
static bool makes (int n, int k) { return !(k == LARGE && n >= 2); } // refused from 1.2 on
static std::string text_of (bool toml, const Cfg &x) { Steps S; disir_config *p = NULL; if (build_config (x, full, &p, &S)) { fprintf (stderr, "%s\n", mm::show (x).c_str ()); abort (); } FILE *f = tmpfile (); if ((toml ? dio_toml_serialize_config : dio_json_config_fd_write) (arc::in[0], p, f)) abort (); fflush (f); std::string r; char b[4096]; off_t o = 0; ssize_t n; while ((n = pread (fileno (f), b, sizeof b, o)) > 0) { r.append (b, n); o += n; } fclose (f); disir_config_finished (&p); return r; }
static std::string text[2][NM][NCONTENT]; static const char *NEWER[2];
static void init (const char *s)
{
    arc::init (s); for (int n = 0; n < NM; n++) { M[n] = mold_at (n); mtext[n] = fs::mold_text (M[n]); } Steps S; if (build_mold (M[NM - 1], &full, &S)) abort ();
    for (int f = 0; f < 2; f++) for (int n = 0; n < NM; n++) for (int k = 0; k < NCONTENT; k++)
    {
        if (!makes (n, k)) continue; std::string &t = text[f][n][k];
        if (k == BROKEN) t = f ? "config.version = = [" : "{ \"version\": "; else { t = text_of (f, cfg (n, k == WRONG ? DEFAULTS : k)); if (k == WRONG) { std::string a = f ? "r = 3" : "\"r\" : 3"; size_t p = t.find (a); if (p == std::string::npos) { fprintf (stderr, "%s", t.c_str ()); abort (); } t.replace (p, a.size (), f ? "r = \"no\"" : "\"r\" : \"no\""); } }
    }
    // groups that do less: without reading streams, molds, configs; one of another backend
    static const char *LESS[] = { "nofd", "nomold", "noread", "moved" };
    for (int i = 0; i < 4; i++) { disir_register_plugin p = fs::plugin (false, arc::dir[1][0], arc::molds[0]); if (i == 0) p.dp_config_fd_read = NULL; if (i == 1) p.dp_mold_read = NULL; if (i == 2) p.dp_config_read = NULL; if (i == 3) p.dp_name = (char *) "OTHER"; if (disir_plugin_register (arc::in[1], &p, "json", LESS[i])) abort (); }
}
struct Arch { std::string backend, group, entry, version, text; };
static std::string metadata (const std::string &implementation, const std::vector<Arch> &v)
{
    std::map<std::string, std::set<std::string>> b; for (auto &a : v) b[a.backend].insert (a.group); std::string r = strf ("disir_org_version = \"0/1-draft\"\nimplementation = \"%s\"\n", implementation.c_str ());
    for (auto &x : b) { r += "[[backend]]\nid = \"" + x.first + "\"\ngroups = ["; const char *sep = ""; for (auto &g : x.second) { r += sep + strf ("\"%s\"", g.c_str ()); sep = ", "; } r += "]\n"; } return r;
}
static std::vector<tar::Item> items (const std::vector<Arch> &v)
{
    std::vector<tar::Item> r; r.push_back ({ "metadata.toml", metadata (libdisir_version_string, v) }); std::map<std::string, std::map<std::string, std::string>> idx; for (auto &a : v) { idx[a.backend][a.group] += strf ("\"%s\" = \"%s\"\n", a.entry.c_str (), a.version.c_str ()); r.push_back ({ a.backend + "/" + a.group + "/" + a.entry, a.text }); }
    for (auto &b : idx) { std::string t; for (auto &g : b.second) t += strf ("[\"%s\"]\n%s", g.first.c_str (), g.second.c_str ()); r.push_back ({ b.first + "/entries.toml", t }); } return r;
}
// ---- the decision table ------------------------------------------------------------------------------------
struct System { int mold; enum { ABSENT, VALID, INVALID, MALFORMED } kind; int version, content; }; // mold -1: none, -2: malformed, -3: readable but not valid
struct State { enum disir_status verdict; bool identical, conflict, resolved, discarded, updated; Cfg now; };
static bool same (const std::vector<CEl> &a, const std::vector<CEl> &b)
{
    if (a.size () != b.size ()) return false; std::map<std::string, std::vector<const CEl *>> x, y; for (auto &e : a) x[e.name].push_back (&e); for (auto &e : b) y[e.name].push_back (&e);
    for (auto &p : x) { auto &q = y[p.first]; if (q.size () != p.second.size ()) return false; for (size_t i = 0; i < q.size (); i++) if (q[i]->sec != p.second[i]->sec || (q[i]->sec ? !same (q[i]->kids, p.second[i]->kids) : q[i]->val != p.second[i]->val)) return false; } return true;
}
static State verdict (int version, int content, const System &y)
{
    State s; s.identical = s.conflict = s.resolved = s.discarded = s.updated = false; s.verdict = DISIR_STATUS_NO_CAN_DO; if (y.mold < 0) return s;
    if (content == BROKEN) { s.verdict = DISIR_STATUS_CONFIG_INVALID; return s; } if (VERS[y.mold] < VERS[version]) return s; if (content == WRONG) { s.verdict = DISIR_STATUS_CONFIG_INVALID; return s; }
    s.now = cfg (version, content);
    switch (y.kind)
    {
    case System::ABSENT: s.verdict = version == y.mold ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER; return s;
    case System::INVALID: case System::MALFORMED: s.verdict = DISIR_STATUS_CONFIG_INVALID; return s; // nothing is imported over an entry that cannot be judged
    case System::VALID: s.conflict = true; if (y.version > y.mold) s.verdict = DISIR_STATUS_CONFLICTING_SEMVER; else { bool eq = same (cfg (y.version, y.content).kids, s.now.kids); s.identical = eq && y.version == version; s.verdict = eq && y.version != version ? DISIR_STATUS_CONFLICTING_SEMVER : DISIR_STATUS_CONFLICT; } return s;
    } return s;
}
enum Opt { O_UPDATE = DISIR_IMPORT_UPDATE, O_FORCE, O_DO, O_DISCARD, O_WITH, O_NONE = 0, O_OUT = 6, NOPT = 7 };
static const char *ON[] = { "0", "update", "force", "import", "discard", "update with discard", "6" };
static enum disir_status option (State &s, int opt, int mold)
{
    if (s.verdict == DISIR_STATUS_NO_CAN_DO || s.verdict == DISIR_STATUS_CONFIG_INVALID) return DISIR_STATUS_NO_CAN_DO;
    if (s.resolved && opt != O_DISCARD) return DISIR_STATUS_NO_CAN_DO;
    switch (opt)
    {
    case O_DISCARD: if (s.resolved) s.discarded = true; s.resolved = false; return DISIR_STATUS_OK;
    case O_FORCE: s.resolved = true; return DISIR_STATUS_OK;
    case O_DO: if (s.conflict) return DISIR_STATUS_NO_CAN_DO; s.resolved = true; return DISIR_STATUS_OK;
    case O_UPDATE: case O_WITH:
        {
            if (s.verdict == DISIR_STATUS_OK || s.identical || s.now.v == VERS[mold]) return DISIR_STATUS_NO_CAN_DO; Upd u (M[mold], s.now, VERS[mold]);
            while (u.run ()) { const upd::Item &i = *u.conflict; if (value_allowed (*i.me, i.v, VERS[mold])) u.open->val = i.v; else if (opt == O_WITH) u.open->val = active_default (i.me->defs, VERS[mold])->val; else return DISIR_STATUS_RESTRICTION_VIOLATED; }
            s.now = u.now; s.resolved = s.updated = true; return DISIR_STATUS_OK;
        }
    default: return DISIR_STATUS_INVALID_ARGUMENT;
    }
}
static void clean () { arc::clear_side (1); fs::clear (arc::tmp); fs::clear (arc::home); fs::mkdirs (arc::home); for (int g = 0; g < arc::NG; g++) { fs::clear (arc::molds[g]); } }
static std::string archive (const std::vector<Arch> &v) { std::string p = arc::home + "/in.disir"; fs::put (p, tar::make (items (v))); return p; }
static void place (const Id &i, const System &y)
{
    std::string m = arc::molds[i.first] + "/" + i.second + ".json"; fs::mkdirs (m.substr (0, m.rfind ('/'))); if (y.mold >= 0) fs::put (m, mtext[y.mold]); else if (y.mold == -2) fs::put (m, "{"); else if (y.mold == -3) { std::string t = mtext[NM - 1]; size_t p = t.find ("\"mold\""); p = p == std::string::npos ? p : t.find ('{', p); if (p == std::string::npos) abort (); fs::put (m, t.insert (p + 1, "\"zz\": { \"type\": \"INTEGER\", \"defaults\": [] }, ")); }
    bool t = arc::GROUPS[i.first].toml; if (y.kind == System::VALID) arc::store (1, i, text[t][y.version][y.content]); else if (y.kind == System::INVALID) arc::store (1, i, text[t][y.version][WRONG]); else if (y.kind == System::MALFORMED) arc::store (1, i, text[t][0][BROKEN]);
}
static const char *KIND[] = { "absent", "present", "invalid", "malformed" };
static std::string show (const System &y) { return strf ("mold %s, entry %s%s", y.mold < 0 ? y.mold == -1 ? "missing" : y.mold == -2 ? "malformed" : "invalid" : VERS[y.mold].str ().c_str (), KIND[y.kind], y.kind == System::VALID ? strf (" at %s with %s", VERS[y.version].str ().c_str (), CN[y.content]).c_str () : ""); }
struct Entry { Id id; int version, content; System y; State s; };
static Arch arch (const Entry &e) { bool t = arc::GROUPS[e.id.first].toml; return { t ? "TOML" : "JSON", arc::GROUPS[e.id.first].name, e.id.second, VERS[e.version].str (), text[t][e.version][e.content] }; }
static std::string show (const Entry &e) { return strf ("%s archived at %s with %s; system: %s", arc::show (e.id).c_str (), VERS[e.version].str ().c_str (), CN[e.content], show (e.y).c_str ()); }
// what the system holds; toml does not keep the order of different names
static bool holds (const Id &i, const Cfg &want, std::string &got)
{
    disir_config *p = NULL; enum disir_status s = disir_config_read (arc::in[1], arc::GROUPS[i.first].name, i.second.c_str (), NULL, &p); if (s != DISIR_STATUS_OK) { got = strf ("%s (%s)", st (s), disir_error (arc::in[1])); if (p) disir_config_finished (&p); disir_error_clear (arc::in[1]); return false; }
    Cfg x; std::string e; bool r = dump_config (p, x, e); got = r ? mm::show (x) : "? " + e; disir_config_finished (&p); return r && x.v == want.v && (arc::GROUPS[i.first].toml ? same (x.kids, want.kids) : x.kids == want.kids);
}
#endif
