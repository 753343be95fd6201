// A base mold with every kind of attribute, and every single edit of a mold (shared by C10 and C16)
#ifndef MOLDS_H
#define MOLDS_H
#include "mm.h"
namespace mm {
// ---- molds: a base mold with every kind of attribute and every single edit -----------------------------
inline Mold base_mold ()
{
    Mold m; m.docs = { { Ver (1, 0), "mold" } };
    MEl k = MEl::kv ("k", Val::in (1)).def (Ver (2, 0), Val::in (2)).with (Res::range (0, 9)).with (Res::num (20, Ver (1, 0)).until (Ver (2, 0))).with (Res::min (0)).doc ("k doc");
    MEl e = MEl::kv ("e", Val::en ("x")).with (Res::en ("x")).with (Res::en ("y", Ver (2, 0))).with (Res::en ("z").until (Ver (2, 0)));
    e.res[0].docs = { { Ver (1, 0), "res doc" }, { Ver (2, 0), "res doc two" } };
    MEl s = MEl::section ("s", { MEl::kv ("f", Val::fl (0.5)), MEl::kv ("b", Val::bo (true)), MEl::section ("n", { MEl::kv ("t", Val::str ("text")).doc ("t doc") }).with (Res::min (0)) }).with (Res::min (0)).with (Res::max (3)).doc ("s doc");
    MEl o = MEl::section ("o", { MEl::kv ("p", Val::str ("p")) }).from (Ver (2, 0));
    MEl d = MEl::kv ("d", Val::str ("")).until (Ver (2, 0));
    m.kids = { k, e, s, o, d }; return m;
}
template <class F> void doc_edits (std::vector<Doc> &d, F emit)
{
    auto keep = d;
    d.push_back ({ Ver (3, 0), "more" }); emit (); d = keep;
    for (size_t i = 0; i < keep.size (); i++) { d[i].s += "!"; emit (); d = keep; d[i].v = Ver (1, 5); emit (); d = keep; d.erase (d.begin () + i); emit (); d = keep; d[i].s = ""; emit (); d = keep; }
}
inline Val other (const Val &v, int k)
{
    switch (v.t) { case INT: return Val::in (v.i + (k ? 1ll << 32 : 1)); case FLT: return Val::fl (k ? v.d + 1e-9 : -v.d); case BOOL: return Val::bo (!v.b); case ENUM: return Val::en (k ? "y" : v.s + "q"); default: return Val::str (k ? v.s + "x" : "T" + v.s.substr (v.s.empty () ? 0 : 1)); }
}
template <class F> void kid_edits (std::vector<MEl> &kids, F emit);
template <class F> void el_edits (MEl &e, F emit)
{
    MEl keep = e;
    auto go = [&] () { emit (); e = keep; };
    e.name += "2"; go ();
    doc_edits (e.docs, emit);
    if (!e.hasdep) { e.hasdep = true; e.dep = Ver (3, 0); go (); } else { e.hasdep = false; go (); e.dep = Ver (4, 0); go (); }
    if (e.sec) { if (!e.hasin) { e.from (Ver (1, 2)); go (); } else { e.hasin = false; go (); e.in = Ver (1, 9); go (); } }
    for (size_t i = 0; i < e.res.size (); i++)
    {
        e.res.erase (e.res.begin () + i); go ();
        e.res[i].in = Ver (1, 3); go ();
        if (e.res[i].hasdep) { e.res[i].hasdep = false; go (); e.res[i].dep = Ver (5, 0); go (); } else { e.res[i].until (Ver (5, 0)); go (); }
        if (e.res[i].kind == RENUM) { e.res[i].s += "w"; go (); e.res[i].s = ""; go (); }
        else { e.res[i].x -= 1; if (e.res[i].x >= 0 || e.res[i].kind == RRANGE || e.res[i].kind == RNUM) go (); e = keep; if (e.res[i].kind == RRANGE) { e.res[i].y += 1; go (); } else { e.res[i].x += 2; go (); } }
        if (e.res[i].kind == RMIN) { e.res[i].kind = RMAX; e.res[i].x = 9; go (); }
        doc_edits (e.res[i].docs, emit);
    }
    if (e.t == INT || e.t == FLT) if (!e.sec) { e.with (Res::num (77)); go (); e.with (Res::range (30, 31)); go (); }
    if (!e.sec && e.t == ENUM) { e.with (Res::en ("more")); go (); }
    e.with (Res::max (9, Ver (3, 0))); go ();
    e.with (Res::min (0, Ver (3, 0))); go ();
    if (!e.sec)
    {
        for (size_t i = 0; i < e.defs.size (); i++)
        {
            for (int k = 0; k < 2; k++) { e.defs[i].val = other (e.defs[i].val, k); go (); }
            e.defs[i].v = Ver (1, 7); go ();
            if (e.defs.size () > 1) { e.defs.erase (e.defs.begin () + i); go (); }
        }
        e.def (Ver (3, 0), e.defs[0].val); go (); e.def (Ver (3, 0), other (e.defs[0].val, 0)); go ();
        static const Val T[] = { Val::str ("1"), Val::in (1), Val::fl (1), Val::bo (true) };
        if (e.t != ENUM) for (auto &v : T) if (v.t != e.t) { e.t = v.t; for (auto &d : e.defs) d.val = v; if (v.t == STR || v.t == BOOL) e.res.erase (std::remove_if (e.res.begin (), e.res.end (), [] (const Res &r) { return r.kind == RRANGE || r.kind == RNUM; }), e.res.end ()); go (); }
        { MEl z = MEl::section (e.name, {}); z.docs = e.docs; for (auto &r : keep.res) if (r.kind == RMIN || r.kind == RMAX) z.res.push_back (r); e = z; go (); }
    }
    else kid_edits (e.kids, emit);
}
template <class F> void kid_edits (std::vector<MEl> &kids, F emit)
{
    auto keep = kids;
    for (size_t i = 0; i < keep.size (); i++) { kids.erase (kids.begin () + i); emit (); kids = keep; if (i + 1 < kids.size ()) { std::swap (kids[i], kids[i + 1]); emit (); kids = keep; } el_edits (kids[i], emit); kids = keep; }
    kids.push_back (MEl::kv ("new", Val::in (1))); emit (); kids = keep;
    kids.insert (kids.begin (), MEl::section ("news", { MEl::kv ("x", Val::in (1)) })); emit (); kids = keep;
}
inline std::vector<Mold> edits (Mold m) { std::vector<Mold> r = { m }; auto emit = [&] () { r.push_back (m); }; doc_edits (m.docs, emit); kid_edits (m.kids, emit); return r; }
}
#endif
