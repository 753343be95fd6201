// C14: element lists and collections mirror the tree at all times
// technique: exhaustive exploration of add/destroy/list/iterate histories up to a bounded depth on the real library, every step compared with a reference model of the tree and of every open collection
#include "mm.h"
using namespace mc; using namespace mm;

// ---- reference model ----------------------------------------------------------------------------
struct El { int id; std::string name; disir_context *p; bool alive; bool sec; disir_context *held; };
struct Coll { disir_collection *p = NULL; std::vector<int> members; size_t pos = 0; };   // pos: index into members (dead ones included)
struct Tree { std::vector<El> all; std::vector<int> live; };   // live: ids in insertion order
static Mold names_mold (int n)
{
    Mold m; for (int i = 0; i < n; i++) m.kids.push_back (MEl::kv (i == 0 ? "a" : i == 1 ? "b" : strf ("n%d", i), Val::in (0)).with (Res::min (0)).with (Res::max (0)));
    return m;
}
struct Root
{
    CfgH cf; MoldH mo; disir_context *root = NULL, *parent = NULL; int kind;
    // kind 0: config under construction, 1: finalized config, 2: section of a config (finalized), 3: mold, 4: section under construction
    Root (Ctx &c, int k) : kind (k)
    {
        static MoldH m; if (!m.p) { Mold x = names_mold (80); MEl s = MEl::section ("s", names_mold (80).kids).with (Res::min (0)).with (Res::max (0)); s.kids.push_back (MEl::section ("s", { MEl::kv ("a", Val::in (0)).with (Res::min (0)) }).with (Res::min (0)).with (Res::max (0))); x.kids.push_back (s); if (build_mold (x, &m.p)) c.fail ("setup", "mold"); }
        if (kind == 3) { if (dc_mold_begin (&root)) c.fail ("setup", "mold begin"); parent = root; return; }
        if (dc_config_begin (m.p, &root)) c.fail ("setup", "config begin");
        if (kind == 0) { parent = root; return; }
        if (kind == 1) { if (dc_config_finalize (&root, &cf.p)) c.fail ("setup", "finalize"); parent = root = dc_config_getcontext (cf.p); return; }
        if (dc_begin (root, DISIR_CONTEXT_SECTION, &parent) || dc_set_name (parent, "s", 1)) c.fail ("setup", "section");
        if (kind == 4) return;
        if (dc_finalize (&parent) || dc_find_element (root, "s", 0, &parent)) c.fail ("setup", "section");
        if (dc_config_finalize (&root, &cf.p)) c.fail ("setup", "finalize"); root = dc_config_getcontext (cf.p);
    }
    ~Root ()
    {
        if (kind == 4) dc_destroy (&parent);
        if (kind == 2 && parent) dc_putcontext (&parent);
        if (kind == 0 || kind == 3 || kind == 4) dc_destroy (&root); else dc_putcontext (&root);
    }
};
static std::string show_ids (const std::vector<int> &v) { std::string r = "["; for (int x : v) r += strf ("%d ", x); return r + "]"; }
static int id_of (const Tree &t, disir_context *p) { for (int i : t.live) if (t.all[i].p == p) return i; for (auto &e : t.all) if (e.p == p && e.held) return e.id; return -1; }
static void add (Ctx &c, Root &r, Tree &t, const std::string &name, bool sec, bool hold)
{
    disir_context *n = NULL; enum disir_status s = dc_begin (r.parent, sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &n);
    MC_CHECK (c, s == DISIR_STATUS_OK, "begin", "dc_begin: %s", st (s));
    s = dc_set_name (n, name.c_str (), name.size ()); MC_CHECK (c, s == DISIR_STATUS_OK, "name", "dc_set_name(%s): %s", name.c_str (), st (s));
    int id = t.all.size ();
    if (!sec && r.kind == 3) { dc_set_value_type (n, DISIR_VALUE_TYPE_INTEGER); Steps S; add_default (S, n, Def { Ver (1, 0), Val::in (id) }); }
    else if (!sec) dc_set_value_integer (n, id);
    El e { id, name, n, true, sec, NULL };
    s = dc_finalize (&n);
    MC_CHECK (c, s == DISIR_STATUS_OK, "finalize", "dc_finalize(%s): %s", name.c_str (), st (s));
    if (hold)
    {
        int idx = 0; for (int j : t.live) idx += t.all[j].name == name;
        s = dc_find_element (r.parent, name.c_str (), idx, &e.held); MC_CHECK (c, s == DISIR_STATUS_OK && e.held == e.p, "find", "%s number %d just added: %s", name.c_str (), idx, st (s));
    }
    t.all.push_back (e); t.live.push_back (id);
}
static void destroy (Ctx &c, Root &r, Tree &t, int k)
{
    int id = t.live[k]; El &e = t.all[id]; int idx = 0; for (int j = 0; j < k; j++) idx += t.all[t.live[j]].name == e.name;
    disir_context *p = e.held; enum disir_status s;
    if (!p) { s = dc_find_element (r.parent, e.name.c_str (), idx, &p); MC_CHECK (c, s == DISIR_STATUS_OK && p == e.p, "find", "%s number %d: %s, %s", e.name.c_str (), idx, st (s), p == e.p ? "" : "another element"); }
    if (e.held) { s = dc_destroy (&p); e.held = NULL; }
    else s = dc_destroy (&p);
    MC_CHECK (c, s == DISIR_STATUS_OK && !p, "destroy", "dc_destroy: %s", st (s));
    e.alive = false; t.live.erase (t.live.begin () + k);
}
// everything listed, found by name and by position; the size and end of the collections
static void verify (Ctx &c, Root &r, Tree &t, const std::vector<std::string> &names)
{
    auto same = [&] (disir_collection *col, const std::vector<int> &want, const char *what) {
        std::vector<int> got; disir_context *e = NULL; enum disir_status s; bool foreign = false;
        int n = dc_collection_size (col);
        while ((s = dc_collection_next (col, &e)) == DISIR_STATUS_OK) { int i = id_of (t, e); if (i < 0) foreign = true; got.push_back (i); dc_putcontext (&e); if (got.size () > want.size () + 3) break; }
        dc_collection_finished (&col);
        MC_CHECK (c, !foreign && got == want && n == (int) want.size () && s == DISIR_STATUS_EXHAUSTED, "list", "%s lists %s (size %d, end %s), expected %s", what, show_ids (got).c_str (), n, st (s), show_ids (want).c_str ());
    };
    disir_collection *col = NULL; enum disir_status s = dc_get_elements (r.parent, &col);
    MC_CHECK (c, s == DISIR_STATUS_OK, "elements", "dc_get_elements: %s", st (s));
    same (col, t.live, "dc_get_elements");
    for (auto &n : names)
    {
        std::vector<int> want; for (int i : t.live) if (t.all[i].name == n) want.push_back (i);
        col = NULL; s = dc_find_elements (r.parent, n.c_str (), &col);
        if (want.empty ()) MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !col, "absent", "dc_find_elements(%s): %s although there is none", n.c_str (), st (s));
        else { MC_CHECK (c, s == DISIR_STATUS_OK, "by-name", "dc_find_elements(%s): %s", n.c_str (), st (s)); same (col, want, ("dc_find_elements " + n).c_str ()); }
        for (unsigned i = 0; i <= want.size (); i++)
        {
            disir_context *x = NULL; s = dc_find_element (r.parent, n.c_str (), i, &x);
            if (i < want.size ()) { MC_CHECK (c, s == DISIR_STATUS_OK && x == t.all[want[i]].p, "at", "dc_find_element(%s,%u): %s, element %d", n.c_str (), i, st (s), x ? id_of (t, x) : -1); dc_putcontext (&x); }
            else MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !x, "beyond", "dc_find_element(%s,%u): %s although there are %zu", n.c_str (), i, st (s), want.size ());
        }
        disir_context *x = NULL; s = dc_find_element (r.parent, n.c_str (), 0xffffffffu, &x);
        MC_CHECK (c, s == DISIR_STATUS_NOT_EXIST && !x, "beyond", "dc_find_element(%s, UINT_MAX): %s", n.c_str (), st (s));
    }
}
struct Opened { std::vector<Coll> v; ~Opened () { for (auto &k : v) if (k.p) dc_collection_finished (&k.p); } };
static void open_all (Ctx &c, Root &r, Tree &t, Coll &k) { k = Coll (); enum disir_status s = dc_get_elements (r.parent, &k.p); MC_CHECK (c, s == DISIR_STATUS_OK, "elements", "dc_get_elements: %s", st (s)); k.members = t.live; }
static void open_name (Ctx &c, Root &r, Tree &t, Coll &k, const char *n) { k = Coll (); enum disir_status s = dc_find_elements (r.parent, n, &k.p); MC_CHECK (c, s == DISIR_STATUS_OK, "by-name", "dc_find_elements: %s", st (s)); for (int i : t.live) if (t.all[i].name == n) k.members.push_back (i); }
static void size_of (Ctx &c, Tree &t, Coll &k)
{
    int n = dc_collection_size (k.p), want = 0; for (int i : k.members) want += t.all[i].alive;
    MC_CHECK (c, n == want, "size", "size %d, living members %d", n, want);
}
static void next (Ctx &c, Tree &t, Coll &k)
{
    while (k.pos < k.members.size () && !t.all[k.members[k.pos]].alive) k.pos++;
    disir_context *e = (disir_context *) 1; enum disir_status s = dc_collection_next (k.p, &e);
    if (k.pos == k.members.size ()) { MC_CHECK (c, s == DISIR_STATUS_EXHAUSTED && !e, "exhausted", "next: %s although every living member was delivered", st (s)); return; }
    int want = k.members[k.pos++], got = s == DISIR_STATUS_OK ? id_of (t, e) : -1;
    bool same = s == DISIR_STATUS_OK && e == t.all[want].p; if (s == DISIR_STATUS_OK) dc_putcontext (&e);
    MC_CHECK (c, same, "next", "next: %s element %d, expected element %d of %s", st (s), got, want, show_ids (k.members).c_str ());
}
static void release (Tree &t, Opened &o) { for (auto &k : o.v) if (k.p) dc_collection_finished (&k.p); for (auto &e : t.all) if (e.held) dc_putcontext (&e.held); }
static std::string shape (Tree &t) { std::string r; for (int i : t.live) r += t.all[i].name + strf ("%d ", i); return r; }

// ---- histories of adds, destroys and two collections ---------------------------------------------
static void history (Ctx &c, int depth)
{
    int kind = c.choose (5); bool hold = c.choose (2);
    {
        Root r (c, kind); Tree t; Opened o; o.v.resize (1); std::string text;
        struct Rel { Tree &t; Opened &o; ~Rel () { release (t, o); } } rel { t, o };
        bool mold = kind == 3;
        for (int i = 0; i < depth; i++)
        {
            Coll &k = o.v[0]; int nl = t.live.size ();
            // 0 add a, 1 add b (mold: unique names), 2 add section, then destroy each, then collection operations
            int ops = 3 + nl + (k.p ? 3 : 0) + (nl ? 2 : 0), x = c.choose (ops); std::string before = shape (t);
            if (x < 3)
            {
                std::string n = mold ? strf ("n%zu", t.all.size ()) : x == 0 ? "a" : x == 1 ? "b" : "s"; bool sec = x == 2;
                if (sec && kind == 3) n = strf ("s%zu", t.all.size ());
                if (mold && x == 1) c.prune ();
                text = strf ("add %s as %zu", n.c_str (), t.all.size ()); c.note ("%s\n", text.c_str ()); add (c, r, t, n, sec, hold);
            }
            else if ((x -= 3) < nl) { text = strf ("destroy %d", t.live[x]); c.note ("%s\n", text.c_str ()); destroy (c, r, t, x); }
            else
            {
                x -= nl; if (nl) { if (x < 2) { if (k.p) dc_collection_finished (&k.p); if (x == 0) { text = "open"; open_all (c, r, t, k); } else { text = "open name"; open_name (c, r, t, k, t.all[t.live[0]].name.c_str ()); } c.note ("%s: %s\n", text.c_str (), show_ids (k.members).c_str ()); goto done; } x -= 2; }
                if (x == 0) { text = "next"; c.note ("next\n"); next (c, t, k); }
                else if (x == 1) { text = "reset"; c.note ("reset\n"); dc_collection_reset (k.p); k.pos = 0; }
                else { text = "size"; c.note ("size\n"); size_of (c, t, k); }
            }
        done:
            c.state (strf ("%d ", kind) + shape (t)); c.transition (before, text);
        }
        std::vector<std::string> names = { "a", "b", "s", "n3" }; if (mold) { names = { "a" }; for (auto &e : t.all) names.push_back (e.name); }
        verify (c, r, t, names); c.validated ();
        Coll &k = o.v[0]; if (k.p) { for (size_t i = 0; i <= k.members.size (); i++) next (c, t, k); size_of (c, t, k); }
        c.nontrivial (shape (t) + text); c.outcome (strf ("%zu live of %zu", t.live.size (), t.all.size ()));
    }
}
// ---- collections: n members, every sequence of next/reset/size/destroy ----------------------------
static void collections (Ctx &c, int depth)
{
    int n = 1 + c.choose (c.thorough () ? 6 : 5), how = c.choose (3); bool hold = c.choose (2);
    Root r (c, 0); Tree t; Opened o; o.v.resize (2); struct Rel { Tree &t; Opened &o; ~Rel () { release (t, o); } } rel { t, o };
    for (int i = 0; i < n; i++) add (c, r, t, how == 1 ? "a" : i % 2 ? "b" : "a", false, hold);
    if (how == 1) open_name (c, r, t, o.v[0], "a"); else open_all (c, r, t, o.v[0]);
    if (how == 2) open_name (c, r, t, o.v[1], "a");
    std::string text;
    for (int i = 0; i < depth; i++)
    {
        int nl = t.live.size (), x = c.choose (nl + (how == 2 ? 3 : 4)); std::string before = shape (t) + strf ("%zu", o.v[0].pos);
        if (x < nl) { text = strf ("destroy %d", t.live[x]); c.note ("%s\n", text.c_str ()); destroy (c, r, t, x); }
        else if (x == nl) { text = "next"; c.note ("next\n"); next (c, t, o.v[0]); }
        else if (x == nl + 1) { text = "end"; break; }
        else if (x == nl + 2) { if (how == 2) { text = "next of second"; c.note ("next of second\n"); next (c, t, o.v[1]); } else { text = "reset"; c.note ("reset\n"); dc_collection_reset (o.v[0].p); o.v[0].pos = 0; } }
        else { text = "size"; c.note ("size\n"); size_of (c, t, o.v[0]); }
        c.transition (before, text); c.state (shape (t) + strf ("%zu %d", o.v[0].pos, how));
    }
    for (auto &k : o.v) if (k.p)
    {
        int before = c.choose (2); c.note ("drain%s\n", before ? " (size first)" : "");
        if (before) size_of (c, t, k);
        for (size_t i = 0; i <= k.members.size (); i++) next (c, t, k);
        dc_collection_reset (k.p); k.pos = 0; for (size_t i = 0; i <= k.members.size (); i++) next (c, t, k);
    }
    c.validated (); c.nontrivial (shape (t) + text); c.outcome (strf ("%d of %d live", (int) t.live.size (), n));
}
// ---- collections filled by the caller: push, destroy, next ----------------------------------------
static void pushed (Ctx &c, int depth)
{
    int n = c.choose (3) == 0 ? 12 : 4; Root r (c, 0); Tree t; Opened o; o.v.resize (1); struct Rel { Tree &t; Opened &o; ~Rel () { release (t, o); } } rel { t, o };
    for (int i = 0; i < n; i++) add (c, r, t, i % 2 ? "b" : "a", false, true);
    Coll &k = o.v[0]; k.p = dc_collection_create ();
    if (n == 12) for (int i = 0; i < 9; i++) { dc_collection_push_context (k.p, t.all[i].p); k.members.push_back (i); }
    for (int i = 0; i < depth; i++)
    {
        int x = c.choose (n == 12 ? 6 : 8);
        if (x == 0) { c.note ("next\n"); next (c, t, k); }
        else if (x <= 3)
        {
            int id = n == 12 ? (x == 1 ? 9 + i % 3 : x == 2 ? 0 : 11) : x - 1; if (!t.all[id].alive) c.prune ();
            c.note ("push %d\n", id); enum disir_status s = dc_collection_push_context (k.p, t.all[id].p);
            MC_CHECK (c, s == DISIR_STATUS_OK, "push", "push: %s", st (s));
            while (k.pos < k.members.size () && !t.all[k.members[k.pos]].alive) k.pos++;   // a push behind dead members
            k.members.push_back (id);
        }
        else { int id = n == 12 ? (x == 4 ? 0 : 8) : x - 4; if (!t.all[id].alive) c.prune (); c.note ("destroy %d\n", id); for (size_t j = 0; j < t.live.size (); j++) if (t.live[j] == id) { destroy (c, r, t, j); break; } }
    }
    size_of (c, t, k); for (size_t i = 0; i <= k.members.size (); i++) next (c, t, k);
    c.validated (); c.nontrivial (show_ids (k.members)); c.outcome (strf ("%zu pushed", k.members.size ()));
}
// ---- many names and many entries of one name: the index is rehashed and its lists grow ---------------
static void many (Ctx &c)
{
    int kind = c.choose (3), total = 1 + c.choose (c.thorough () ? 79 : 27) * (c.thorough () ? 1 : 3), per = kind == 2 ? 1 : 1 + c.choose (c.thorough () ? 18 : 5) * (c.thorough () ? 1 : 2), mod = 1 + c.choose (4), rem = c.choose (mod), round = c.choose (2);
    kind = kind == 2 ? 3 : kind;
    Root r (c, kind); Tree t; Opened o; struct Rel { Tree &t; Opened &o; ~Rel () { release (t, o); } } rel { t, o };
    auto name = [] (int i) { return i == 0 ? std::string ("a") : i == 1 ? std::string ("b") : strf ("n%d", i); };
    c.note ("%d names, %d each, then remove every element whose number mod %d is %d\n", total, per, mod, rem);
    std::vector<std::string> names; for (int i = 0; i < total; i++) names.push_back (name (i)); names.push_back ("never");
    if (round) for (int k = 0; k < per; k++) for (int i = 0; i < total; i++) add (c, r, t, name (i), false, false);
    else for (int i = 0; i < total; i++) for (int k = 0; k < per; k++) add (c, r, t, name (i), false, false);
    for (size_t i = t.live.size (); i-- > 0;) if (t.live[i] % mod == rem) destroy (c, r, t, i);
    verify (c, r, t, names);
    for (int i = 0; i < total; i += 7) if (kind != 3) add (c, r, t, name (i), false, false);
    verify (c, r, t, names);
    c.validated (); c.nontrivial (strf ("%d/%d/%d/%d/%d/%d", kind, total, per, mod, rem, round)); c.outcome (strf ("%d", kind)); c.state (strf ("%d/%d/%d", total, per, mod * 10 + rem));
}
int main (int argc, char **argv)
{
    Info i = { "C14", "exploration",
        "history: five kinds of parents (config under construction and finalized, section in both states, mold), every sequence of up to 5 (thorough 7) operations out of add keyval/section, destroy any element, open a collection of all / of one name, "
        "next, reset, size, with and without handles held on every element; collections: up to 5 (6) members and every sequence of 5 (7) destroys and iterations over one or two collections; pushed: caller filled collections; "
        "many: up to 80 names x up to 9 (18) entries with every residue class up to 4 removed. At the end everything listed, found by name and by position is compared with the model",
        { "elements are destroyed through a handle as the API demands" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "history", 3, [] (Ctx &c) { history (c, c.thorough () ? 7 : 5); } },
        { "collections", 3, [] (Ctx &c) { collections (c, c.thorough () ? 7 : 5); } },
        { "pushed", 2, [] (Ctx &c) { pushed (c, c.thorough () ? 7 : 5); } },
        { "many", 3, [] (Ctx &c) { many (c); } } });
}
