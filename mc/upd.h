// Reference model of updating a config to another version of its mold.
#ifndef UPD_H
#define UPD_H
#include "mm.h"
namespace upd {
using namespace mc; using namespace mm;
struct Item { std::vector<std::pair<std::string, int>> path; Val v; const MEl *me; };
inline void flatten (const std::vector<MEl> &m, const std::vector<CEl> &k, std::vector<std::pair<std::string, int>> prefix, std::vector<Item> &out)
{
    std::vector<std::string> seen;
    for (auto &e : k)
    {
        auto p = prefix; p.push_back ({ e.name, (int) std::count (seen.begin (), seen.end (), e.name) }); seen.push_back (e.name);
        const MEl *me = find (m, e.name);
        if (e.sec) flatten (me->kids, e.kids, p, out); else out.push_back ({ p, e.val, me });
    }
}
// the entry at a path in the updated config, created when the target version allows it
inline CEl *ensure (const std::vector<MEl> &m, std::vector<CEl> &k, const Item &it, Ver at, bool dry)
{
    std::vector<CEl> *cur = &k; const std::vector<MEl> *mc = &m; CEl *e = nullptr; static CEl dummy; std::vector<CEl> tmp;
    for (size_t i = 0; i < it.path.size (); i++)
    {
        const MEl *me = find (*mc, it.path[i].first); int n = 0; e = nullptr;
        for (auto &x : *cur) if (x.name == it.path[i].first && n++ == it.path[i].second) e = &x;
        if (!e)
        {
            int min, max; limits (*me, at, min, max); if (n != it.path[i].second || max < 0 || (max > 0 && n >= max)) return nullptr;
            if (dry) { tmp = me->sec ? generate (me->kids, at) : std::vector<CEl> (); dummy = me->sec ? CEl::section (me->name, tmp) : CEl::kv (me->name, active_default (me->defs, at)->val); e = &dummy; cur = &dummy.kids; mc = &me->kids; continue; }
            cur->push_back (me->sec ? CEl::section (me->name, generate (me->kids, at)) : CEl::kv (me->name, active_default (me->defs, at)->val)); e = &cur->back ();
        }
        cur = &e->kids; mc = &me->kids;
    }
    return e;
}
struct Upd
{
    const Mold &m; Cfg old, now; std::vector<Item> items; size_t next = 0; CEl *open = nullptr; const Item *conflict = nullptr;
    Upd (const Mold &m, const Cfg &g, Ver t) : m (m), old (g) { now.v = t; now.kids = generate (m.kids, t); flatten (m.kids, old.kids, {}, items); }
    bool run ()       // true: conflict
    {
        while (next < items.size ())
        {
            const Item &it = items[next++]; CEl *e;
            // ancestors spring into existence only for entries that can exist
            if (!ensure (m.kids, now.kids, it, now.v, true)) continue;
            e = ensure (m.kids, now.kids, it, now.v, false);
            const Def *td = active_default (it.me->defs, now.v), *cd = active_default (it.me->defs, old.v);
            e->val = td->val;
            if (it.v == td->val) continue;
            if (td->v <= old.v) { if (value_allowed (*it.me, it.v, now.v)) { e->val = it.v; continue; } }
            else if (it.v == cd->val) continue;
            open = e; conflict = &it; return true;
        }
        return false;
    }
};
}
#endif
