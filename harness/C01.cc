// C01: a config finalizes as valid exactly when it satisfies its mold
// technique: exhaustive enumeration of small molds x configs through the real API, verdict and fault list compared with a reference validator
#include "mm.h"
#include <map>
#include <set>
using namespace mc; using namespace mm;

static const Ver V1 (1, 0), V2 (2, 0);
static MEl leaf (int k, const std::string &n)
{
    switch (k)
    {
    case 0: return MEl::kv (n, Val::in (1));
    case 1: return MEl::kv (n, Val::in (2)).with (Res::range (1, 3)).with (Res::min (0)).with (Res::max (2));
    case 2: return MEl::kv (n, Val::en ("x")).with (Res::en ("x")).with (Res::en ("y", V2));
    case 3: return MEl::kv (n, Val::str ("s")).with (Res::min (0)).with (Res::max (0));
    case 4: return MEl::kv (n, Val::in (5), V2);
    case 5: return MEl::kv (n, Val::fl (0.5)).with (Res::num (0.5)).with (Res::range (2, 3, V1).until (V2)).with (Res::min (2)).with (Res::max (3));
    default: return MEl::kv (n, Val::bo (true)).until (V2);
    }
}
static const int NLEAF = 7;
static std::vector<Val> values (int k)
{
    switch (k)
    {
    case 0: return { Val::in (9), Val::str ("w") };
    case 1: return { Val::in (3), Val::in (4), Val::fl (2.0) };
    case 2: return { Val::en ("x"), Val::en ("y"), Val::en ("z"), Val::str ("x") };
    case 3: return { Val::str ("q"), Val::en ("q") };
    case 4: return { Val::in (6), Val::bo (true) };
    case 5: return { Val::fl (0.5), Val::fl (2.5), Val::fl (0.25), Val::in (2) };
    default: return { Val::bo (false), Val::in (1) };
    }
}
struct Cand { MEl m; int kind; };    // kind: leaf kind, or -1 for a section
static std::map<std::string, int> kinds;   // name -> leaf kind

static void fill (Ctx &c, const std::vector<MEl> &mold, std::vector<CEl> &out, int &budget, int depth)
{
    while (budget > 0)
    {
        // 0: stop; otherwise one of the candidates
        std::vector<CEl> cand;
        for (auto &e : mold)
        {
            if (e.sec) { cand.push_back (CEl::section (e.name)); continue; }
            for (auto &v : values (kinds[e.name])) cand.push_back (CEl::kv (e.name, v));
            CEl n = CEl::kv (e.name, Val ()); n.valueless = true; cand.push_back (n);
        }
        cand.push_back (CEl::kv ("nope", Val::in (1)));
        if (depth < 2) cand.push_back (CEl::section ("nosec"));
        int k = c.choose (cand.size () + 1);
        if (!k) return;
        budget--;
        CEl e = cand[k - 1];
        if (e.sec) { const MEl *me = find (mold, e.name); fill (c, me ? me->kids : std::vector<MEl> (), e.kids, budget, depth + 1); }
        out.push_back (e);
    }
}
// values of keyvals that were never set
static void settle (const std::vector<MEl> &mold, std::vector<CEl> &k)
{
    for (auto &e : k)
    {
        const MEl *m = find (mold, e.name);
        if (e.valueless && m) { e.val = Val (); e.val.t = m->t; if (m->t == STR || m->t == ENUM) e.val.unset = true; }
        if (e.sec) settle (m ? m->kids : std::vector<MEl> (), e.kids);
    }
}
static void faults (const std::vector<MEl> &m, const std::vector<CEl> &k, Ver v, std::multiset<std::string> &bad, const std::string &prefix)
{
    std::map<std::string, int> seen;
    for (auto &e : k)
    {
        std::string path = prefix + e.name + strf ("@%d", seen[e.name]++);
        const MEl *me = find (m, e.name);
        bool self = me && me->sec == e.sec;
        if (self && !e.sec && (!value_allowed (*me, e.val, v) || (e.val.unset && me->t == ENUM))) self = false;
        if (self && e.sec && !counts_ok (me->kids, e.kids, v)) self = false;
        if (!self) bad.insert (path);
        if (e.sec) faults (me ? me->kids : std::vector<MEl> (), e.kids, v, bad, path + ".");
    }
}
static void paths (disir_context *p, const std::string &prefix, std::map<disir_context *, std::string> &out)
{
    disir_collection *col = NULL; std::map<std::string, int> seen;
    if (dc_get_elements (p, &col)) return;
    each (col, [&] (disir_context *e) {
        const char *n = NULL; int32_t sz; dc_get_name (e, &n, &sz);
        std::string path = prefix + n + strf ("@%d", seen[n]++);
        out[e] = path;
        if (dc_context_type (e) == DISIR_CONTEXT_SECTION) paths (e, path + ".", out);
        return true; });
}
static std::string join (const std::multiset<std::string> &s) { std::string r; for (auto &x : s) r += (r.empty () ? "" : " ") + x; return "[" + r + "]"; }

// what an element with the wrong number of children has to say: one of the children at fault, with the limit it breaks
typedef std::vector<std::vector<std::string>> Reasons;
static void reasons (const std::vector<MEl> &m, const std::vector<CEl> &k, Ver v, const std::string &path, std::map<std::string, Reasons> &out)
{
    for (auto &e : m)
    {
        int min, max, n = count (k, e.name);
        limits (e, v, min, max);
        std::string ver = strf ("%d.%d", (int) v.a, (int) v.b);
        if (n < min) out[path].push_back ({ e.name, strf ("%d", min), strf ("%d", n) });
        if (max == -1 && n) out[path].push_back ({ e.name, ver });
        if (max > 0 && n > max) out[path].push_back ({ e.name, strf ("%d", max), strf ("%d", n) });
    }
    std::map<std::string, int> seen;
    for (auto &e : k)
    {
        const MEl *me = find (m, e.name); int i = seen[e.name]++;
        if (e.sec && me && me->sec) reasons (me->kids, e.kids, v, (path == "/" ? "" : path + ".") + e.name + strf ("@%d", i), out);
    }
}
static MoldH cached; static std::string cached_key;
static void check (Ctx &c, const Mold &m, Cfg g)
{
    c.note ("%s", show (m).c_str ()); c.note ("%s", show (g).c_str ());
    std::string key = show (m);
    if (key != cached_key)
    {
        if (cached.p) disir_mold_finished (&cached.p);
        cached_key = ""; Steps S; enum disir_status s = build_mold (m, &cached.p, &S);
        MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "mold", "mold refused: %s %s", st (s), S.log.empty () ? "" : S.log[0].c_str ());
        cached_key = key;
    }
    Cfg model = g; settle (m.kids, model.kids);
    std::multiset<std::string> want;
    bool top = counts_ok (m.kids, model.kids, model.v);
    if (!top) want.insert ("/");
    faults (m.kids, model.kids, model.v, want, "");
    bool ok = want.empty ();
    c.nontrivial (key + show (g)); c.outcome (strf ("%d %d", ok, (int) want.size ()));
    c.risk ("crash-build");
    CfgH ch; enum disir_status s = build_config (g, cached.p, &ch.p);
    MC_CHECK (c, s == (ok ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), ok ? "rejects-valid" : "accepts-invalid", "finalize returned %s for a config that is %s; at fault: %s",
              st (s), ok ? "valid" : "invalid", join (want).c_str ());
    MC_CHECK (c, ch.p != NULL, "no-config", "no config handed out");
    disir_collection *col = NULL;
    c.risk ("crash-valid");
    s = disir_config_valid (ch.p, &col);
    std::multiset<std::string> got;
    std::map<disir_context *, std::string> byptr; disir_context *root = dc_config_getcontext (ch.p);
    byptr[root] = "/"; paths (root, "", byptr);
    if (col) each (col, [&] (disir_context *e) { auto it = byptr.find (e); got.insert (it == byptr.end () ? "<foreign>" : it->second); return true; });
    // the state of each single element says the same
    std::multiset<std::string> single;
    for (auto &x : byptr) if (dc_context_valid (x.first) != DISIR_STATUS_OK) single.insert (x.second);
    std::map<std::string, Reasons> why; reasons (m.kids, model.kids, model.v, "/", why);
    for (auto &x : byptr)
    {
        auto w = why.find (x.second); if (w == why.end ()) continue;
        const char *msg = dc_context_error (x.first); bool named = false;
        for (auto &tokens : w->second)
        {
            bool all = msg != NULL;
            for (auto &t : tokens) if (all && !strstr (msg, t.c_str ())) all = false;
            named = named || all;
        }
        MC_CHECK (c, named, "reason", "%s has the wrong number of %s, its error is: %s", x.second.c_str (), w->second[0][0].c_str (), msg ? msg : "(none)");
    }
    dc_putcontext (&root);
    MC_CHECK (c, s == (ok ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "valid-status", "disir_config_valid returned %s for a config that is %s", st (s), ok ? "valid" : "invalid");
    // sections around an element at fault may be listed with it, nothing else
    auto agrees = [&] (const std::multiset<std::string> &g) {
        for (auto &w : want) if (g.count (w) != 1) return false;
        for (auto &x : g)
        {
            if (g.count (x) != 1) return false;
            bool inside = want.count (x) > 0;
            for (auto &w : want) if (w.compare (0, x.size () + 1, x + ".") == 0) inside = true;
            if (!inside) return false;
        }
        return true; };
    MC_CHECK (c, agrees (got), "fault-list", "invalid contexts listed %s, expected %s", join (got).c_str (), join (want).c_str ());
    MC_CHECK (c, agrees (single), "fault-state", "contexts marked invalid %s, expected %s", join (single).c_str (), join (want).c_str ());
    s = disir_config_valid (ch.p, NULL);
    MC_CHECK (c, s == (ok ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "valid-status", "disir_config_valid without collection returned %s", st (s));
    c.validated ();
}
static MEl mk (Ctx &c, const char *n, int upto = NLEAF) { int k = c.choose (upto); kinds[n] = k; return leaf (k, n); }
// two keyvals side by side at the top level
static void flat (Ctx &c)
{
    kinds.clear ();
    Mold m; m.kids.push_back (mk (c, "a")); m.kids.push_back (mk (c, "b"));
    Cfg g; g.v = c.choose (2) ? V2 : V1; if (mold_version (m) < g.v) c.prune ();
    int budget = c.thorough () ? 4 : 3;
    fill (c, m.kids, g.kids, budget, 0);
    check (c, m, g);
}
static MEl section (Ctx &c, const char *n, std::vector<MEl> kids)
{
    MEl s = MEl::section (n, kids);
    switch (c.choose (3)) { case 0: break; case 1: s.with (Res::min (0)).with (Res::max (2)); break; default: s.from (V2); }
    return s;
}
// a section with one keyval, next to a keyval that makes version 2.0 available
static void nested (Ctx &c)
{
    kinds.clear ();
    Mold m; MEl k = mk (c, "a"); m.kids.push_back (section (c, "s", { k }));
    kinds["z"] = 1; m.kids.push_back (leaf (1, "z").def (V2, Val::in (3)));
    Cfg g; g.v = c.choose (2) ? V2 : V1;
    int budget = c.thorough () ? 5 : 4;
    fill (c, m.kids, g.kids, budget, 0);
    check (c, m, g);
}
// two levels of sections
static void deep (Ctx &c)
{
    kinds.clear ();
    Mold m; MEl k = mk (c, "a");
    MEl inner = section (c, "i", { k }); if (inner.hasin && k.introduced () == V1) {}
    MEl outer = section (c, "o", { inner });
    m.kids.push_back (outer);
    kinds["z"] = 1; m.kids.push_back (leaf (1, "z").def (V2, Val::in (3)));
    Cfg g; g.v = c.choose (2) ? V2 : V1;
    // one correct outer section is the interesting start; everything below and beside it is enumerated
    int budget = c.thorough () ? 5 : 4;
    fill (c, m.kids, g.kids, budget, 0);
    if (g.kids.empty () || g.kids[0].name != "o") c.prune ();
    check (c, m, g);
}
int main (int argc, char **argv)
{
    Info i = { "C01", "exploration",
        "every mold made of two keyvals (7 kinds: plain, ranged optional, enum, unlimited string, introduced later, float with deprecated range and 2..3 occurrences, deprecated boolean), of a section with one "
        "keyval, or of two nested sections (each plain, optional, or introduced at 2.0), x config version 1.0/2.0 x every sequence of up to 3 (flat) or 4 (nested) entries, each entry being any known keyval with each "
        "allowed, disallowed, wrongly typed or missing value, any section, or an unknown keyval or section; an element with the wrong number of children must name one of them, the limit and the count (or the version) in its error",
        { "a keyval that was never given a value counts as the zero value of its type (an enum without value is invalid)" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "flat", 5, flat }, { "nested", 5, nested }, { "deep", 6, deep } });
}
