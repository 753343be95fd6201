// C08: updating a config keeps the user's values and flags real conflicts
// technique: exhaustive exploration of the real update state machine over molds, user edits, versions and conflict answers, compared with a reference model
#include "upd.h"
using namespace mc; using namespace mm;

static const Ver V10 (1, 0), V11 (1, 1), V20 (2, 0);
static std::string text (const Val &v)
{
    switch (v.t) { case INT: return strf ("%lld", (long long) v.i); case FLT: return strf ("%f", v.d); case BOOL: return v.b ? "True" : "False"; default: return v.s; }
}
static Val from_text (int t, const std::string &s)
{
    switch (t) { case INT: return Val::in (atoll (s.c_str ())); case FLT: return Val::fl (atof (s.c_str ())); case BOOL: return Val::bo (s[0] == '1' || s[0] == 't' || s[0] == 'T'); case ENUM: return Val::en (s); default: return Val::str (s); }
}
// the n:th value of a type
static Val val (int t, int n)
{
    switch (t) { case STR: return Val::str (strf ("text %d", n)); case INT: return Val::in (n * 10 + 1); case FLT: return Val::fl (n / 4.0); case BOOL: return Val::bo (n & 1); default: return Val::en (strf ("e%d", n)); }
}
using upd::Upd; using upd::Item;
// ---- driving the real thing -------------------------------------------------------------------------
static disir_mold *last_mold; static std::string last_key;
static disir_mold *mold_for (Ctx &c, const Mold &m)
{
    std::string k = show (m);
    if (k != last_key) { if (last_mold) disir_mold_finished (&last_mold); last_key = ""; Steps S; enum disir_status s = build_mold (m, &last_mold, &S); MC_CHECK (c, s == DISIR_STATUS_OK && !S.any_bad, "mold", "%s: %s %s", k.c_str (), st (s), S.log.empty () ? "" : S.log[0].c_str ()); last_key = k; }
    return last_mold;
}
enum { KEEP, TAKE, OTHER, BAD_THEN_KEEP, ABANDON, NANS };
static void update (Ctx &c, const Mold &m, const Cfg &g, Ver target, bool null_target)
{
    disir_mold *mold = mold_for (c, m); Ver mv = mold_version (m); if (null_target) target = mv;
    c.note ("%s\n%s\nupdate to %s\n", show (m).c_str (), show (g).c_str (), null_target ? "the mold's version" : target.str ().c_str ());
    CfgH old; Steps S; enum disir_status s = build_config (g, mold, &old.p, &S);
    MC_CHECK (c, s == DISIR_STATUS_OK && valid (m, g), "config", "%s: %s", show (g).c_str (), st (s));
    c.state (show (m) + show (g) + target.str ());
    disir_version x = target.v (); disir_update *u = NULL; size_t h0 = heap ();
    s = disir_update_config (old.p, null_target ? NULL : &x, &u);
    if (target < g.v || target == g.v || mv < target)
    {
        enum disir_status want = target == g.v ? DISIR_STATUS_NO_CAN_DO : DISIR_STATUS_CONFLICTING_SEMVER;
        MC_CHECK (c, s == want && !u, "refused", "update from %s to %s with mold version %s: %s", g.v.str ().c_str (), target.str ().c_str (), mv.str ().c_str (), st (s));
        MC_CHECK (c, heap () == h0, "leak", "refused update keeps %zu bytes", heap () - h0); c.outcome (st (s)); return;
    }
    Upd w (m, g, target); int conflicts = 0;
    for (;;)
    {
        bool conflict = w.run (); c.outcome (strf ("%s %d", st (s), conflict));
        MC_CHECK (c, s == (conflict ? DISIR_STATUS_CONFLICT : DISIR_STATUS_OK) && u, conflict ? "missed-conflict" : "false-conflict", "update reports %s, expected %s%s", st (s), conflict ? "a conflict on " : "none", conflict ? w.conflict->path.back ().first.c_str () : "");
        const char *n = NULL, *k = NULL, *t = NULL;
        if (!conflict) break;
        conflicts++;
        enum disir_status q = disir_update_conflict (u, &n, &k, &t);
        std::string wk = text (w.conflict->v), wt = text (active_default (w.conflict->me->defs, target)->val), wn = w.conflict->path.back ().first;
        MC_CHECK (c, q == DISIR_STATUS_OK && n && k && t && wn == n && wk == k && wt == t, "conflict", "conflict: %s %s: config %s mold %s, expected %s: config %s mold %s", st (q), n ? n : "-", k ? k : "-", t ? t : "-", wn.c_str (), wk.c_str (), wt.c_str ());
        MC_CHECK (c, disir_update_continue (u) == DISIR_STATUS_CONFLICT, "unresolved", "continuing without an answer does not report the conflict again");
        int ans = c.choose (NANS); const Val &cur = w.conflict->v; int ty = cur.t; std::string a = ans == TAKE ? wt : ans == OTHER ? text (val (ty, 5)) : wk;
        c.transition (wn + wk + wt, strf ("%d", ans));
        if (ans == ABANDON) { c.note ("abandon\n"); s = disir_update_finished (&u, NULL); MC_CHECK (c, s == DISIR_STATUS_OK && !u, "abandon", "%s", st (s)); Cfg o; std::string e; MC_CHECK (c, dump_config (old.p, o, e) && o == g, "abandon", "an abandoned update leaves %s %s of the config %s", show (o).c_str (), e.c_str (), show (g).c_str ()); c.validated (); return; }
        if (ans == BAD_THEN_KEEP)
        {
            std::string bad = ty == INT ? "x" : ty == ENUM ? "nope" : ty == FLT ? "y" : ty == BOOL ? "?" : ""; if (ty == STR) c.prune ();
            c.note ("answer %s; ", bad.c_str ());
            q = disir_update_resolve (u, bad.c_str ()); MC_CHECK (c, q != DISIR_STATUS_OK, "bad-answer", "the answer %s for %s is accepted", bad.c_str (), wn.c_str ());
            q = disir_update_conflict (u, &n, &k, &t); MC_CHECK (c, q == DISIR_STATUS_OK && wk == k && wt == t, "bad-answer", "a refused answer changes the conflict: %s", st (q));
            MC_CHECK (c, disir_update_continue (u) == DISIR_STATUS_CONFLICT, "bad-answer", "a refused answer resolves the conflict");
        }
        Val nv = from_text (ty, a); bool ok = value_allowed (*w.conflict->me, nv, target); c.note ("answer %s; ", a.c_str ());
        q = disir_update_resolve (u, a.c_str ());
        MC_CHECK (c, (q == DISIR_STATUS_OK) == ok, "answer", "answer %s for %s: %s", a.c_str (), wn.c_str (), st (q));
        if (!ok) { a = wt; nv = from_text (ty, a); q = disir_update_resolve (u, a.c_str ()); MC_CHECK (c, q == DISIR_STATUS_OK, "answer", "after a refused answer the default %s is refused: %s", a.c_str (), st (q)); }
        w.open->val = nv;
        MC_CHECK (c, disir_update_conflict (u, &n, &k, &t) == DISIR_STATUS_NO_CAN_DO && disir_update_resolve (u, a.c_str ()) == DISIR_STATUS_NO_CAN_DO, "resolved", "a resolved conflict is still reported");
        s = disir_update_continue (u);
    }
    const char *n, *k, *t;
    MC_CHECK (c, disir_update_conflict (u, &n, &k, &t) == DISIR_STATUS_NO_CAN_DO && disir_update_resolve (u, "1") == DISIR_STATUS_NO_CAN_DO, "done", "a finished update reports a conflict");
    MC_CHECK (c, disir_update_continue (u) == DISIR_STATUS_OK, "done", "continuing a finished update fails");
    if (conflicts) c.nontrivial (show (m) + show (g) + target.str ());
    CfgH res; s = disir_update_finished (&u, &res.p);
    MC_CHECK (c, s == DISIR_STATUS_OK && !u && res.p && res.p != old.p, "finished", "%s", st (s));
    Cfg o; std::string oe; MC_CHECK (c, dump_config (old.p, o, oe) && o.kids == g.kids, "original", "the config that was updated has %s, had %s", show (o).c_str (), show (g).c_str ()); // its version follows
    Cfg got; std::string err; MC_CHECK (c, dump_config (res.p, got, err), "dump", "%s", err.c_str ());
    MC_CHECK (c, got == w.now, "content", "updated to %s, expected %s", show (got).c_str (), show (w.now).c_str ());
    MC_CHECK (c, valid (m, w.now) && disir_config_valid (res.p, NULL) == DISIR_STATUS_OK, "valid", "the updated config %s is not valid (model %d)", show (got).c_str (), valid (m, w.now));
    c.validated ();
}
// histories of defaults
static void history (MEl &k, int t, int h)
{
    k.t = t; k.defs.clear ();
    k.def (V10, val (t, 1));
    if (h & 1) k.def (V11, val (t, 2));
    if (h & 2) k.def (V20, val (t, 3));
}
static const int TYPES[] = { INT, STR, ENUM, FLT, BOOL };
static MEl key (const char *n, int t, int h) { MEl k; k.name = n; history (k, t, h); if (t == ENUM) for (int i = 1; i < 6; i++) k.with (Res::en (strf ("e%d", i))); return k; }
static Val edit (Ctx &c, const MEl &k, Ver at)
{
    switch (c.choose (3)) { case 0: return active_default (k.defs, at)->val; case 1: return active_default (k.defs, Ver (9, 9))->val; default: return val (k.t, 4); }
}
static CEl *keyval (std::vector<CEl> &k, const std::string &n) { for (auto &e : k) { if (!e.sec && e.name == n) return &e; if (e.sec) if (CEl *x = keyval (e.kids, n)) return x; } return nullptr; }
static void targets (Ctx &c, const Mold &m, const Cfg &g)
{
    int t = c.choose (5); static const Ver T[] = { V10, V11, V20, Ver (2, 1) };
    update (c, m, g, t < 4 ? T[t] : V10, t == 4);
}
// two keyvals anywhere: same place, different nesting
static void two (Ctx &c)
{
    Mold m; int t1 = TYPES[c.choose (5)], t2 = c.thorough () ? TYPES[c.choose (5)] : INT; MEl a = key ("a", t1, c.choose (4)), b = key ("b", t2, c.choose (4));
    int place = c.choose (c.thorough () ? 5 : 3);
    MEl z = key ("z", INT, 2);
    switch (place)
    {
    case 0: m.kids = { a, b, z }; break;
    case 1: m.kids = { MEl::section ("s", { a, MEl::section ("t", { b }) }), z }; break;
    case 2: m.kids = { MEl::section ("s", { MEl::section ("t", { a }), b }), z }; break;
    case 3: m.kids = { z, MEl::section ("s", { a }), MEl::section ("t", { b }) }; break;
    default: m.kids = { MEl::section ("s", { z }), MEl::section ("t", { b }), a }; break;
    }
    Cfg g; g.v = c.choose (2) ? V11 : V10; if (mold_version (m) < g.v) c.prune ();
    g.kids = generate (m.kids, g.v); keyval (g.kids, "a")->val = edit (c, a, g.v); keyval (g.kids, "b")->val = edit (c, b, g.v); if (c.choose (2)) keyval (g.kids, "z")->val = Val::in (77);
    targets (c, m, g);
}
// optional and repeated keyvals and sections, with limits that change
static void repeated (Ctx &c)
{
    Mold m; int h = c.choose (4); MEl a = key ("a", INT, h), b = key ("b", STR, c.choose (2) * 2);
    switch (c.choose (5))
    {
    case 0: a.with (Res::min (0)); break;
    case 1: a.with (Res::min (0)).with (Res::max (0)); break;
    case 2: a.with (Res::min (1)).with (Res::max (3)); break;
    case 3: a.with (Res::min (0)).with (Res::max (3)).with (Res::max (1, V20)); break;
    default: a.with (Res::min (0)).with (Res::max (2)).with (Res::min (2, V20)); break;
    }
    MEl s = MEl::section ("s", { a, b });
    switch (c.choose (6))
    {
    case 0: break;
    case 1: s.with (Res::min (0)).with (Res::max (0)); break;
    case 2: s.with (Res::min (0)).until (V20); break;
    case 3: s.with (Res::min (0)).with (Res::max (2)).with (Res::max (1, V20)); break;
    case 4: s.with (Res::min (1)).with (Res::max (2)).with (Res::min (2, V20)); break;
    default: s.with (Res::min (0)).with (Res::max (2)).with (Res::min (1, V11)); break;
    }
    m.kids = { s, key ("z", INT, 2) };
    Cfg g; g.v = V10; int min, max; limits (m.kids[0], V10, min, max); int ns = c.choose (3); if (ns < min || (max && ns > max)) c.prune ();
    for (int i = 0; i < ns; i++)
    {
        CEl x = CEl::section ("s"); limits (a, V10, min, max); int na = c.choose (4); if (na < min || (max && na > max) || (ns == 2 && na == 3)) c.prune ();
        if (!c.thorough () && i == 1 && na > 1) c.prune ();
        for (int j = 0; j < na; j++) x.kids.push_back (CEl::kv ("a", c.choose (2) ? val (INT, 4 + i + j) : val (INT, 1)));
        x.kids.insert (x.kids.begin () + (na ? 1 : 0), CEl::kv ("b", i ? val (STR, 4) : val (STR, 1)));
        g.kids.push_back (x);
    }
    g.kids.insert (g.kids.begin (), CEl::kv ("z", val (INT, 1)));
    update (c, m, g, c.choose (2) ? V20 : V11, false);
}
// entries that come and go, and values that a newer version no longer allows
static void changing (Ctx &c)
{
    Mold m; MEl a = key ("a", INT, c.choose (4)), n = key ("n", STR, 0), d = key ("d", STR, c.choose (2)), e = key ("e", ENUM, 0);
    n.defs.clear (); n.def (c.choose (2) ? V11 : V20, Val::str ("new")); if (c.choose (2)) n.with (Res::min (0));
    d.until (c.choose (2) ? V11 : V20);
    switch (c.choose (4)) { case 0: break; case 1: a.with (Res::range (0, 1000)); break; case 2: a.with (Res::range (0, 1000).until (V20)); a.with (Res::range (0, 35, V20)); break; default: a.with (Res::range (0, 1000)).with (Res::range (2000, 3000, V11)); break; }
    e.res.clear (); for (int i = 1; i < 4; i++) e.with (Res::en (strf ("e%d", i))); Res old = Res::en ("e4"); if (c.choose (2)) old.until (V20); e.with (old); e.with (Res::en ("e5", V20));
    int nest = c.choose (2); if (nest) m.kids = { MEl::section ("s", { a, n, d, e }), key ("z", INT, 2) }; else m.kids = { a, n, d, e, key ("z", INT, 2) };
    Cfg g; g.v = c.choose (2) ? V11 : V10; if (mold_version (m) < g.v) c.prune ();
    g.kids = generate (m.kids, g.v); if (CEl *x = keyval (g.kids, "a")) x->val = edit (c, a, g.v); if (CEl *x = keyval (g.kids, "d")) if (c.choose (2)) x->val = Val::str ("mine"); if (CEl *x = keyval (g.kids, "e")) if (c.choose (2)) x->val = Val::en ("e4");
    if (CEl *x = keyval (g.kids, "n")) x->val = Val::str ("edited");
    if (!valid (m, g)) c.prune ();
    update (c, m, g, c.choose (2) ? V20 : V11, false);
}
// texts of every length in a conflict
static void lengths (Ctx &c)
{
    static const int LEN[] = { 0, 1, 510, 511, 512, 513, 1000, 5000 }; int a = LEN[c.choose (8)], b = LEN[c.choose (8)];
    Mold m; MEl k = MEl::kv ("k", Val::str ("old")).def (V20, Val::str (std::string (b, 'd'))); m.kids = { k, MEl::section ("s", { MEl::kv ("i", Val::in (1)).def (V20, Val::in (INT64_MAX)) }) };
    Cfg g; g.kids = { CEl::kv ("k", Val::str (std::string (a, 'c'))), CEl::section ("s", { CEl::kv ("i", Val::in (INT64_MIN)) }) };
    update (c, m, g, V20, true);
}
// nothing is left behind, whichever way an update ends
static void leaks (Ctx &c)
{
    int abandon = c.choose (3); Mold m; m.kids = { key ("a", INT, 2), MEl::section ("s", { key ("b", STR, 2) }).with (Res::max (2)) };
    disir_mold *mold = mold_for (c, m); Cfg g; g.kids = generate (m.kids, V10); keyval (g.kids, "a")->val = Val::in (99); keyval (g.kids, "b")->val = Val::str ("mine");
    size_t before = 0; c.note ("%s", abandon == 0 ? "finish" : abandon == 1 ? "abandon at a conflict" : "abandon when done"); c.nontrivial (strf ("%d", abandon)); c.state (strf ("leak%d", abandon));
    for (int i = 0; i < 3; i++)
    {
        CfgH old, res; build_config (g, mold, &old.p); disir_update *u = NULL; enum disir_status s = disir_update_config (old.p, NULL, &u);
        for (int j = 0; s == DISIR_STATUS_CONFLICT && !(abandon == 1 && j == 1); j++) { disir_update_resolve (u, "55"); s = disir_update_continue (u); }
        MC_CHECK (c, s == (abandon == 1 ? DISIR_STATUS_CONFLICT : DISIR_STATUS_OK), "status", "%s", st (s));
        disir_update_finished (&u, abandon ? NULL : &res.p);
        if (res.p) disir_config_finished (&res.p); disir_config_finished (&old.p);
        if (i == 1) before = heap ();
    }
    MC_CHECK (c, heap () == before, "leak", "an update keeps %zd bytes", (ssize_t) (heap () - before)); c.validated ();
    CfgH old; build_config (g, mold, &old.p); disir_update *u = NULL; const char *x;
    MC_CHECK (c, disir_update_config (NULL, NULL, &u) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_config (old.p, NULL, NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_continue (NULL) == DISIR_STATUS_INVALID_ARGUMENT
        && disir_update_conflict (NULL, &x, &x, &x) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_resolve (NULL, "1") == DISIR_STATUS_INVALID_ARGUMENT, "null", "null arguments");
}
int main (int argc, char **argv)
{
    Info i = { "C08", "exploration",
        "molds with two keyvals of every type and default history (default unchanged, changed in 1.1, in 2.0, in both) at every combination of nesting, beside a third; optional and repeated keyvals and sections whose limits change; "
        "entries introduced and deprecated, and restrictions changing, between the versions; every user edit (untouched, equal to the newest default, own value); every source and target version including none, equal, older and too new; "
        "every answer to every conflict (own value, new default, another, refused then own, abandon)",
        { "conflict answers are given as text, so float answers have six decimals", "optional sections without any keyval are not carried over and not explored" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "two", 4, two }, { "repeated", 4, repeated }, { "changing", 5, changing }, { "lengths", 2, lengths }, { "leaks", 1, leaks } });
}
