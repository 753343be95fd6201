// C17: mold overrides change defaults exactly as the rules say
// technique: exhaustive enumeration of base molds, override documents and their malformations on the real reader, against a reference interpretation of the rules
#include "fs.h"
#include "molds.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static std::string CF, MO; static disir_instance *in;
static void init (const char *s) { CF = std::string (s) + "/c"; MO = std::string (s) + "/m"; fs::mkdirs (CF); fs::mkdirs (MO + "/d"); in = fs::empty (); fs::attach (in, false, CF, MO, "g"); }
struct JV { const char *text; std::function<bool (int t, Val &)> as; };
static bool no (int, Val &) { return false; }
static const std::vector<JV> &values ()
{
    static std::vector<JV> v = {
        { "\"b\"", [] (int t, Val &o) { if (t == STR) o = Val::str ("b"); else if (t == ENUM) o = Val::en ("b"); else return false; return true; } },
        { "7", [] (int t, Val &o) { if (t == INT) o = Val::in (7); else if (t == FLT) o = Val::fl (7); else return false; return true; } },
        { "true", [] (int t, Val &o) { o = Val::bo (true); return t == BOOL; } },
        { "2.5", [] (int t, Val &o) { o = Val::fl (2.5); return t == FLT; } },
        { "5000000000", [] (int t, Val &o) { if (t == INT) o = Val::in (5000000000LL); else if (t == FLT) o = Val::fl (5e9); else return false; return true; } },
        { "\"out \\\"of\\\" set\"", [] (int t, Val &o) { if (t == STR) o = Val::str ("out \"of\" set"); else if (t == ENUM) o = Val::en ("out \"of\" set"); else return false; return true; } },
        { "-3", [] (int t, Val &o) { if (t == INT) o = Val::in (-3); else if (t == FLT) o = Val::fl (-3); else return false; return true; } },
        { "false", [] (int t, Val &o) { o = Val::bo (false); return t == BOOL; } },
        { "null", no }, { "[7]", no }, { "{}", no }, { "18446744073709551615", [] (int t, Val &o) { o = Val::fl (18446744073709551615.0); return t == FLT; } } };
    return v;
}
struct Ent { std::string name; bool array; std::vector<std::pair<std::string, int>> v; };     // override version, value
struct Over { std::vector<std::pair<std::string, std::string>> sync; std::vector<Ent> e; };     // override version -> namespace version
static std::string text (const Over &o)
{
    std::string s = "{\n  \"sync\" : ["; for (size_t i = 0; i < o.sync.size (); i++) s += strf ("%s{\"namespace\" : \"%s\", \"override\" : \"%s\"}", i ? ", " : "", o.sync[i].second.c_str (), o.sync[i].first.c_str ());
    s += "],\n  \"override\" : {"; for (size_t i = 0; i < o.e.size (); i++)
    {
        s += strf ("%s\n    \"%s\" : ", i ? "," : "", o.e[i].name.c_str ()); if (o.e[i].array) s += "[";
        for (size_t k = 0; k < o.e[i].v.size (); k++) s += strf ("%s{\"version\" : \"%s\", \"value\" : %s}", k ? ", " : "", o.e[i].v[k].first.c_str (), values ()[o.e[i].v[k].second].text);
        if (o.e[i].array) s += "]";
    }
    return s + "\n  }\n}\n";
}
static MEl *at (std::vector<MEl> &k, const std::string &path)
{
    size_t d = path.find ('.'); std::string n = path.substr (0, d); for (auto &e : k) if (e.name == n) { if (d == std::string::npos) return e.sec ? NULL : &e; return e.sec ? at (e.kids, path.substr (d + 1)) : NULL; } return NULL;
}
static Ver ver (const std::string &s) { Ver v; sscanf (s.c_str (), "%u.%u", &v.a, &v.b); return v; }
// OK: the mold is given in m; BAD: must be refused; ANY: refused, or the mold in m
enum { OK, BAD, ANY };
static int apply (Mold &m, const Over &o)
{
    Ver mv = mold_version (m.kids, Ver (1, 0)); std::map<std::string, Ver> sync; int r = OK; for (auto &x : o.sync) sync.insert ({ x.first, ver (x.second) });
    for (auto &e : o.e) for (auto &v : e.v) { if (!sync.count (v.first)) return BAD; if (!strcmp (values ()[v.second].text, "null")) return BAD; }
    for (auto &e : o.e)
    {
        MEl *k = at (m.kids, e.name); if (!k) return BAD;
        std::vector<std::pair<Ver, int>> L; for (auto &v : e.v) L.push_back ({ sync[v.first], v.second }); std::stable_sort (L.begin (), L.end (), [] (const std::pair<Ver, int> &a, const std::pair<Ver, int> &b) { return a.first < b.first; });
        for (auto &v : L)
        {
            Val x; bool fits = values ()[v.second].as (k->t, x); if (mv < v.first) return BAD; Ver hi (0, 0); for (auto &d : k->defs) if (hi < d.v) hi = d.v;
            if (v.first < hi) { if (!fits) r = ANY; continue; } if (!fits) return BAD;
            std::string why; if (!value_allowed (*k, x, v.first)) r = ANY;      // the library leaves defaults outside their restrictions open
            if (v.first == hi) { for (auto &d : k->defs) if (d.v == hi) d.val = x; } else k->defs.push_back ({ v.first, x });
        }
    }
    return r;
}
static const std::vector<Ver> &probe () { static std::vector<Ver> p; if (p.empty ()) for (int a = 0; a < 4; a++) for (int b = 0; b < 6; b++) p.push_back (Ver (a, b)); return p; }
static void base (const Mold &m, bool ns) { static std::string was; std::string key = show (m) + (ns ? "N" : "O"); if (key == was) return; was = key; fs::clear (MO + "/d"); fs::put (MO + (ns ? "/d/__namespace.json" : "/d/e.json"), fs::mold_text (m)); }
static void read (Ctx &c, const Mold &m, bool ns, const std::string &doc, int want, Mold expect)
{
    base (m, ns); fs::put (MO + "/d/e.o.json", doc); c.note ("%s as %s\n%s", show (m).c_str (), ns ? "namespace mold" : "own mold", doc.c_str ());
    probe ();
    disir_error_clear (in); c.risk ("crash"); size_t h0 = heap (); disir_mold *p = NULL; enum disir_status s = disir_mold_read (in, "g", "d/e", &p);
    if (s != DISIR_STATUS_OK) { if (p) disir_mold_finished (&p); disir_error_clear (in); size_t h1 = heap (); MC_CHECK (c, want != OK, "refused", "the override is refused: %s, expected %s", st (s), show (expect).c_str ()); MC_CHECK (c, h1 == h0, "leak-refused", "refusing the override keeps %zd bytes", (ssize_t) (h1 - h0)); c.outcome (strf ("refused %s", st (s))); return; }
    {
        MoldH q; q.p = p; MC_CHECK (c, p, "no-mold", "the read succeeds without a mold"); Mold got; std::string err; bool ok = dump_mold (p, got, probe (), err); MC_CHECK (c, ok, "dump", "%s", err.c_str ());
        MC_CHECK (c, want != BAD, "accepted", "the override is accepted and gives %s", show (canon (got, probe ())).c_str ());
        std::string a = show (canon (got, probe (), true)), b = show (canon (expect, probe (), true)); MC_CHECK (c, a == b, "result", "the override gives\n%s\nexpected\n%s", a.c_str (), b.c_str ());
        disir_collection *bad = NULL; enum disir_status v = disir_mold_valid (p, &bad); MC_CHECK (c, v == DISIR_STATUS_OK && !bad, "invalid", "the mold with the override is %s", st (v));
        disir_context *x = dc_mold_getcontext (p); disir_version w; dc_get_introduced (x, &w); dc_putcontext (&x); Ver mv = mold_version (m.kids, Ver (1, 0)); MC_CHECK (c, Ver (w.sv_major, w.sv_minor) == mv, "mold-version", "the mold version %s becomes %u.%u", mv.str ().c_str (), w.sv_major, w.sv_minor);
    }
    disir_error_clear (in); size_t h1 = heap (); MC_CHECK (c, h1 == h0, "leak", "reading keeps %zd bytes", (ssize_t) (h1 - h0));
    c.outcome (show (m) == show (expect) ? "unchanged" : "changed");
}
static Mold sample (int t, int defs, bool restr, bool z, int loc)
{
    static const Val A[] = { Val::str ("a"), Val::in (1), Val::fl (0.5), Val::bo (false), Val::en ("a") }, B[] = { Val::str ("b"), Val::in (2), Val::fl (1.5), Val::bo (true), Val::en ("b") };
    MEl k = MEl::kv ("k", A[t]); if (defs & 1) k.def (Ver (1, 5), B[t]); if (defs & 2) k.def (Ver (2, 0), A[t]); k.doc ("about k");
    if (t == 4) k.with (Res::en ("a")).with (Res::en ("b")); if (restr) { if (t == 1 || t == 2) k.with (Res::range (0, 9)).with (Res::num (5e9, Ver (1, 5))); if (t == 4) k.res[1].in = Ver (1, 5); }
    MEl n = MEl::kv ("n", Val::in (4)); if (z) n.def (Ver (2, 0), Val::in (5)); Mold m; m.docs = { { Ver (1, 0), "the mold" } };
    if (loc == 0) m.kids = { n, k }; else if (loc == 1) m.kids = { MEl::section ("s", { k, MEl::kv ("o", Val::bo (true)) }).with (Res::min (0)), n }; else m.kids = { MEl::section ("s", { MEl::section ("t", { n, k }).with (Res::max (2)) }) };
    return m;
}
static const char *LOC[] = { "k", "s.k", "s.t.k" };
static void single (Ctx &c)
{
    static const char *NV[] = { "1.0", "1.2", "1.5", "1.7", "2.0", "2.1", "3.0" };
    int loc = c.choose (3), t = c.choose (5), defs = c.choose (4); bool restr = t == 1 || t == 2 || t == 4 ? c.choose (2) : false, z = c.choose (2), ns = c.thorough () ? c.choose (2) : (loc + defs) & 1; int nv = c.choose (7), form = c.choose (c.thorough () ? 4 : 3), val = c.choose (values ().size ());
    if (!c.thorough () && loc == 2 && form) c.prune ();
    Mold m = sample (t, defs, restr, z, loc), w = m; Over o; o.sync = { { "4.0", NV[nv] } }; if (form == 3) o.sync.insert (o.sync.begin (), { "4.1", "1.0" }); o.e = { { LOC[loc], form == 1, { { form == 2 ? "4.5" : "4.0", val } } } };
    int want = apply (w, o); read (c, m, ns, text (o), want, w); std::string key = strf ("%d,%d,%d,%d,%d,%d,%d,%d", loc, t, defs, restr, z, nv, form, val); c.state (key); c.nontrivial (key); c.validated ();
}
// several entries of two keyvals, synchronized in any order
static void several (Ctx &c)
{
    static const char *SY[4][4] = { { "1.0", "1.2", "1.5", "2.0" }, { "2.0", "1.5", "1.2", "1.0" }, { "1.7", "1.0", "2.0", "1.6" }, { "1.0", "2.0", "2.0", "2.3" } };
    int sy = c.choose (4), defs = c.choose (4); Mold m = sample (1, defs, false, true, 1), w = m; Over o; for (int i = 0; i < 4; i++) o.sync.push_back ({ strf ("1.%d", i), SY[sy][i] });
    for (int e = 0; e < 2; e++)
    {
        Ent x; x.name = e ? "n" : "s.k"; int n = c.choose (c.thorough () ? 4 : 3); x.array = n != 1; std::set<std::string> at; for (int i = 0; i < n; i++) { int v = c.choose (4); if (!at.insert (SY[sy][v]).second) c.prune (); static const int pick[] = { 1, 4, 6, 1 }; x.v.push_back ({ strf ("1.%d", v), pick[i] }); }
        if (n) o.e.push_back (x);
    }
    if (c.choose (2)) std::reverse (o.sync.begin (), o.sync.end ());
    int want = apply (w, o); read (c, m, defs & 1, text (o), want, w); std::string key = text (o) + strf ("%d", defs); c.state (key); c.nontrivial (key); c.validated ();
}
static void names (Ctx &c)
{
    static const char *N[] = { "x", "s.x", "x.k", "s", "s.t", "", ".", "..", "s.", ".k", "k.x", "s.k.", "s..k", "s.k.k", "%s", "%n", "k%s", "k%.0s", "s.k%.0s", "s.%s.k", "%.0sk", "k%", "k%%", "%%", "%d", "K", "s/k", " k", "s.t.k", "k" };
    int loc = c.choose (3), at = c.choose (3); bool other = c.choose (2), first = c.choose (2); const char *n = N[c.choose (sizeof N / sizeof *N)]; static const char *NV[] = { "1.0", "2.0", "0.5" };
    Mold m = sample (1, 0, false, true, loc), w = m; Over o; o.sync = { { "1.0", NV[at] } }; o.e = { { n, false, { { "1.0", 1 } } } }; if (other) o.e.insert (first ? o.e.begin () : o.e.end (), { LOC[loc], true, { { "1.0", 4 } } }); if (other && o.e[0].name == o.e[1].name) c.prune ();
    int want = apply (w, o); read (c, m, loc & 1, text (o), want, w); std::string key = strf ("%d,%d,%d,%d,%s", loc, at, other, first, n); c.state (key); c.nontrivial (key); c.validated ();
}
// every truncation, and every value of the document replaced or removed
static void shapes (Ctx &c)
{
    Mold m = sample (1, 1, false, true, 1), w = m; Over o; o.sync = { { "1.0", "1.7" }, { "1.1", "2.0" } }; o.e = { { "s.k", true, { { "1.0", 1 }, { "1.1", 4 } } }, { "n", false, { { "1.1", 6 } } } }; int want = apply (w, o); std::string t = text (o);
    if (c.choose (2))
    {
        int n = c.choose (t.size ()); c.note ("cut at %d\n", n); std::string cut = t.substr (0, n); want = cut.find_last_not_of (" \n") == t.find_last_not_of (" \n") && n ? OK : BAD; read (c, m, true, cut, want, w); c.state (strf ("cut%d", n)); c.nontrivial (cut); c.validated (); return;
    }
    static const char *R[] = { "", "null", "5", "\"x\"", "true", "[]", "{}", "[[]]", "1.5", "[{}]", "{\"version\" : 1}" };
    // the tokens at which a value starts, with their extents; key included for members
    struct Tok { size_t a, b, k; bool member; }; static std::vector<Tok> T; static std::string of;
    if (of != t)
    {
        of = t; T.clear (); std::vector<size_t> open; std::vector<size_t> idx; size_t i = 0;
        std::function<void (bool, size_t)> val = [&] (bool member, size_t k) {
            while (strchr (" \n", t[i])) i++; size_t me = T.size (); T.push_back ({ i, 0, k, member });
            if (t[i] == '"') { i++; while (t[i] != '"') i++; i++; }
            else if (t[i] == '{' || t[i] == '[') { bool ob = t[i] == '{'; i++; for (;;) { while (strchr (" \n,", t[i])) i++; if (t[i] == '}' || t[i] == ']') { i++; break; } size_t k0 = i; if (ob) { i++; while (t[i] != '"') i++; i++; while (strchr (" :", t[i])) i++; } val (ob, k0); } }
            else while (!strchr (",}] \n", t[i])) i++;
            T[me].b = i; };
        val (false, 0);
    }
    int tk = c.choose (T.size ()), r = c.choose (sizeof R / sizeof *R); Tok &x = T[tk]; std::string d, old = t.substr (x.a, x.b - x.a), key = x.member ? t.substr (x.k, x.a - x.k) : "";
    if (r == 0) { size_t a = x.member ? x.k : x.a, b = x.b; if (!tk) c.prune (); while (t[b] == ' ' || t[b] == '\n') b++; if (t[b] == ',') b++; else { while (strchr (" \n", t[a - 1])) a--; if (t[a - 1] == ',') a--; } d = t.substr (0, a) + t.substr (b); } else d = t.substr (0, x.a) + R[r] + t.substr (x.b);
    if (old == R[r]) c.prune (); c.note ("%s%s becomes %s\n", key.c_str (), old.c_str (), r ? R[r] : "nothing");
    bool sync = key.find ("sync") != std::string::npos, over = key == "\"override\" : " && old[0] == '{', value = key.find ("value") != std::string::npos; want = BAD; w = m; Over p = o;
    // what still is a well-formed document
    if (!tk) { if (r == 6 || r == 10) want = ANY; }
    else if (sync) want = BAD;
    else if (over) want = r == 0 || r == 1 || r == 6 ? ANY : BAD;
    else if (value) { static const int V[] = { -1, -1, -2, -3, -3, -3, -3, -3, -3, -3, -3 }; if (V[r] == -2) { want = OK; w = m; std::string five = "5"; MEl *k; Over q = o; apply (w, q); k = tk < (int) T.size () ? at (w.kids, t.rfind ("\"n\"", x.a) != std::string::npos && t.rfind ("\"n\"", x.a) < x.a ? "n" : "s.k") : NULL; std::string vs = t.substr (0, x.a); bool second = vs.rfind ("\"1.1\"") != std::string::npos && vs.rfind ("\"1.1\"") > vs.rfind ("\"1.0\""); for (auto &df : k->defs) if (df.v == (second ? Ver (2, 0) : Ver (1, 7))) df.val = Val::in (5); } }
    else if (!x.member && old[0] == '{') { /* an element of sync or of the array of s.k */ if (r == 0 && x.a > t.find ("s.k")) { want = OK; w = m; Over q = o; q.e[0].v.erase (q.e[0].v.begin () + (old.find ("1.1") != std::string::npos)); apply (w, q); } }
    else if (key.find ("s.k") != std::string::npos) { if (r == 0 || r == 5) { want = OK; w = m; Over q = o; q.e.erase (q.e.begin ()); apply (w, q); } }
    else if (key.find ("\"n\"") != std::string::npos) { if (r == 0 || r == 5) { want = OK; w = m; Over q = o; q.e.erase (q.e.begin () + 1); apply (w, q); } }
    read (c, m, true, d, want, w); c.state (d); c.nontrivial (d); c.validated ();
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C17", "exploration",
        "Every keyval type, place and history of defaults with every override of it over a set of synchronized versions and values; every selection of entries of two keyvals under several synchronizations; every truncation of an override document and every replacement or removal of one of its values.",
        { "values come from a fixed set of twelve JSON values", "two entries of a keyval never map to the same version" }, init, NULL };
    return mc::main (argc, argv, i, { { "single", 3, single }, { "several", 3, several }, { "names", 2, names }, { "shapes", 2, shapes } });
}
