// Reference model of molds and configs (independent of the library's own code), plus builders and
// dumpers that translate between the model and real objects through the public API only.
#ifndef MM_H
#define MM_H
#include "mc.h"
#include <disir/disir.h>
#include <disir/context.h>
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <algorithm>

namespace mm {
using mc::strf; using mc::quote;

struct Ver
{
    uint32_t a, b;
    Ver (uint32_t a = 1, uint32_t b = 0) : a (a), b (b) {}
    bool operator< (const Ver &o) const { return a != o.a ? a < o.a : b < o.b; }
    bool operator== (const Ver &o) const { return a == o.a && b == o.b; }
    bool operator<= (const Ver &o) const { return !(o < *this); }
    disir_version v () const { disir_version x; x.sv_major = a; x.sv_minor = b; return x; }
    std::string str () const { return strf ("%u.%u", a, b); }
};
enum { STR = DISIR_VALUE_TYPE_STRING, INT = DISIR_VALUE_TYPE_INTEGER, FLT = DISIR_VALUE_TYPE_FLOAT,
       BOOL = DISIR_VALUE_TYPE_BOOLEAN, ENUM = DISIR_VALUE_TYPE_ENUM };
enum { RMIN = DISIR_RESTRICTION_INC_ENTRY_MIN, RMAX = DISIR_RESTRICTION_INC_ENTRY_MAX, RENUM = DISIR_RESTRICTION_EXC_VALUE_ENUM,
       RRANGE = DISIR_RESTRICTION_EXC_VALUE_RANGE, RNUM = DISIR_RESTRICTION_EXC_VALUE_NUMERIC };
inline const char *tname (int t) { static const char *n[] = { "?", "string", "integer", "float", "boolean", "enum", "?" }; return n[t < 0 || t > 6 ? 0 : t]; }

struct Val
{
    int t; std::string s; int64_t i; double d; bool b; bool unset;
    Val () : t (STR), i (0), d (0), b (false), unset (false) {}
    static Val str (const std::string &x) { Val v; v.t = STR; v.s = x; return v; }
    static Val en (const std::string &x) { Val v; v.t = ENUM; v.s = x; return v; }
    static Val in (int64_t x) { Val v; v.t = INT; v.i = x; return v; }
    static Val fl (double x) { Val v; v.t = FLT; v.d = x; return v; }
    static Val bo (bool x) { Val v; v.t = BOOL; v.b = x; return v; }
    bool operator== (const Val &o) const
    {
        if (t != o.t || unset != o.unset) return false;
        switch (t) { case INT: return i == o.i; case FLT: return memcmp (&d, &o.d, sizeof d) == 0; case BOOL: return b == o.b; default: return s == o.s; }
    }
    bool operator!= (const Val &o) const { return !(*this == o); }
    std::string show () const
    {
        if (unset) return "<unset>";
        switch (t) { case INT: return strf ("%lld", (long long) i); case FLT: return strf ("%.17gf", d); case BOOL: return b ? "true" : "false";
                     case ENUM: return "enum:" + quote (s); default: return quote (s); }
    }
};
struct Def { Ver v; Val val; };
struct Doc { Ver v; std::string s; };
struct Res
{
    int kind; Ver in; Ver dep; bool hasdep; double x, y; std::string s; std::vector<Doc> docs;
    Res () : kind (RMIN), hasdep (false), x (0), y (0) { dep = Ver (0, 0); }
    static Res min (double n, Ver v = Ver ()) { Res r; r.kind = RMIN; r.x = n; r.in = v; return r; }
    static Res max (double n, Ver v = Ver ()) { Res r; r.kind = RMAX; r.x = n; r.in = v; return r; }
    static Res range (double a, double b, Ver v = Ver ()) { Res r; r.kind = RRANGE; r.x = a; r.y = b; r.in = v; return r; }
    static Res num (double a, Ver v = Ver ()) { Res r; r.kind = RNUM; r.x = a; r.in = v; return r; }
    static Res en (const std::string &s, Ver v = Ver ()) { Res r; r.kind = RENUM; r.s = s; r.in = v; return r; }
    Res &until (Ver v) { hasdep = true; dep = v; return *this; }
    std::string show () const
    {
        static const char *n[] = { "?", "min", "max", "enum", "range", "num" };
        std::string r = strf ("%s(", n[kind]);
        if (kind == RENUM) r += quote (s); else if (kind == RRANGE) r += strf ("%.17g,%.17g", x, y); else r += strf ("%.17g", x);
        r += ")@" + in.str (); if (hasdep) r += "-" + dep.str ();
        for (auto &d : docs) r += "+doc@" + d.v.str () + quote (d.s);
        return r;
    }
};
struct MEl
{
    bool sec; std::string name; int t; std::vector<Def> defs; std::vector<Res> res; std::vector<Doc> docs; std::vector<MEl> kids;
    bool hasin; Ver in; bool hasdep; Ver dep;     // introduced (sections), deprecated
    MEl () : sec (false), t (INT), hasin (false), hasdep (false) {}
    static MEl kv (const std::string &n, Val v, Ver at = Ver ()) { MEl m; m.name = n; m.t = v.t; m.defs.push_back ({ at, v }); return m; }
    static MEl section (const std::string &n, std::vector<MEl> k = {}) { MEl m; m.sec = true; m.name = n; m.kids = k; return m; }
    MEl &with (Res r) { res.push_back (r); return *this; }
    MEl &def (Ver at, Val v) { defs.push_back ({ at, v }); return *this; }
    MEl &from (Ver v) { hasin = true; in = v; return *this; }
    MEl &until (Ver v) { hasdep = true; dep = v; return *this; }
    MEl &doc (const std::string &s, Ver v = Ver ()) { docs.push_back ({ v, s }); return *this; }
    Ver introduced () const
    {
        if (sec) return hasin ? in : Ver (1, 0);
        Ver lo (1, 0); bool first = true;
        for (auto &d : defs) if (first || d.v < lo) { lo = d.v; first = false; }
        return lo;
    }
};
struct Mold { std::vector<MEl> kids; std::vector<Doc> docs; };
struct CEl
{
    bool sec; std::string name; Val val; std::vector<CEl> kids;
    bool valueless;       // keyval never given a value
    CEl () : sec (false), valueless (false) {}
    static CEl kv (const std::string &n, Val v) { CEl c; c.name = n; c.val = v; return c; }
    static CEl section (const std::string &n, std::vector<CEl> k = {}) { CEl c; c.sec = true; c.name = n; c.kids = k; return c; }
    bool operator== (const CEl &o) const { return sec == o.sec && name == o.name && (sec ? kids == o.kids : val == o.val); }
    bool operator!= (const CEl &o) const { return !(*this == o); }
};
struct Cfg { Ver v; std::vector<CEl> kids; bool operator== (const Cfg &o) const { return v == o.v && kids == o.kids; } bool operator!= (const Cfg &o) const { return !(*this == o); } };

// ---- rendering -------------------------------------------------------------------------------
inline std::string show (const std::vector<MEl> &k)
{
    std::string r = "{";
    for (auto &e : k)
    {
        r += r.size () > 1 ? "; " : "";
        r += e.name.empty () ? "<noname>" : e.name;
        if (!e.sec) { r += strf (":%s", tname (e.t)); for (auto &d : e.defs) r += " =" + d.val.show () + "@" + d.v.str (); }
        if (e.hasin) r += " in@" + e.in.str ();
        if (e.hasdep) r += " dep@" + e.dep.str ();
        for (auto &x : e.res) r += " " + x.show ();
        for (auto &d : e.docs) r += " doc@" + d.v.str () + quote (d.s);
        if (e.sec) r += " " + show (e.kids);
    }
    return r + "}";
}
inline std::string show (const Mold &m) { std::string r = "mold" + show (m.kids); for (auto &d : m.docs) r += " doc@" + d.v.str () + quote (d.s); return r; }
inline std::string show (const std::vector<CEl> &k)
{
    std::string r = "{";
    for (auto &e : k) { r += r.size () > 1 ? "; " : ""; r += e.name; if (e.sec) r += " " + show (e.kids); else r += "=" + (e.valueless ? std::string ("<none>") : e.val.show ()); }
    return r + "}";
}
inline std::string show (const Cfg &c) { return "config@" + c.v.str () + show (c.kids); }

// ---- reference semantics ---------------------------------------------------------------------
inline Ver mold_version (const std::vector<MEl> &k, Ver cur)
{
    auto up = [&] (Ver v) { if (cur < v) cur = v; };
    for (auto &e : k)
    {
        if (e.hasdep && e.dep.a) up (e.dep);
        if (e.sec && e.hasin) up (e.in);
        for (auto &d : e.defs) up (d.v);
        for (auto &r : e.res) { up (r.in); if (r.hasdep && r.dep.a) up (r.dep); for (auto &d : r.docs) up (d.v); }
        for (auto &d : e.docs) up (d.v);
        if (e.sec) cur = mold_version (e.kids, cur);
    }
    return cur;
}
inline Ver mold_version (const Mold &m) { Ver v = mold_version (m.kids, Ver (1, 0)); for (auto &d : m.docs) if (v < d.v) v = d.v; return v; }
inline const MEl *find (const std::vector<MEl> &k, const std::string &n) { for (auto &e : k) if (e.name == n) return &e; return nullptr; }

// occurrence limits in force at version v. max 0: unlimited; max -1: must not occur
inline void limits (const MEl &e, Ver v, int &min, int &max)
{
    if (v < e.introduced () || (e.hasdep && (e.dep.a || e.dep.b) && e.dep <= v)) { min = 0; max = -1; return; }
    min = max = 1; const Res *a = nullptr, *b = nullptr;
    for (auto &r : e.res)
    {
        if (r.kind == RMIN && r.in <= v && (!a || a->in < r.in)) a = &r;
        if (r.kind == RMAX && r.in <= v && (!b || b->in < r.in)) b = &r;
    }
    if (a) min = (int) a->x;
    if (b) max = (int) b->x;
    if (max != 0 && max < min) max = min;
}
inline bool value_allowed (const MEl &e, const Val &v, Ver at)
{
    if (v.t != e.t) return false;
    if (e.t != INT && e.t != FLT && e.t != ENUM) return true;
    bool active = false;
    for (auto &r : e.res)
    {
        if (r.kind == RMIN || r.kind == RMAX) continue;
        if (at < r.in) continue;
        if (r.hasdep && (r.dep.a || r.dep.b) && r.dep <= at) continue;
        active = true;
        long double x = e.t == INT ? (long double) v.i : (long double) v.d;
        if (r.kind == RENUM && e.t == ENUM && r.s == v.s) return true;
        // bounds of integer keyvals are whole numbers
        long double lo = r.x, hi = r.y;
        if (e.t == INT) { lo = truncl (lo); hi = truncl (hi); }
        if (r.kind == RRANGE && x >= lo && x <= hi) return true;
        if (r.kind == RNUM && x == lo) return true;
    }
    if (!active) return e.t != ENUM;
    return false;
}
inline bool name_ok (const std::string &n) { for (char c : n) if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_')) return false; return true; }
inline int count (const std::vector<CEl> &k, const std::string &n) { int r = 0; for (auto &e : k) r += e.name == n; return r; }
inline bool counts_ok (const std::vector<MEl> &m, const std::vector<CEl> &k, Ver v)
{
    for (auto &e : m)
    {
        int min, max, n = count (k, e.name);
        limits (e, v, min, max);
        if (n < min || (max == -1 && n) || (max > 0 && n > max)) return false;
    }
    return true;
}
// appends the paths of the elements that are themselves at fault
inline bool valid (const std::vector<MEl> &m, const std::vector<CEl> &k, Ver v, std::vector<std::string> *bad = nullptr, std::string prefix = "", bool counts = true)
{
    bool ok = true;
    if (counts && !counts_ok (m, k, v)) { ok = false; if (bad && prefix.empty ()) bad->push_back ("/"); }
    std::vector<std::string> seen;
    for (auto &e : k)
    {
        int idx = std::count (seen.begin (), seen.end (), e.name); seen.push_back (e.name);
        std::string path = prefix + e.name + strf ("@%d", idx);
        const MEl *me = find (m, e.name);
        bool self = me && me->sec == e.sec && name_ok (e.name);
        if (self && !e.sec && !value_allowed (*me, e.val, v)) self = false;
        if (self && e.sec && !counts_ok (me->kids, e.kids, v)) self = false;
        if (!self) { ok = false; if (bad) bad->push_back (path); }
        if (e.sec && me && me->sec && !valid (me->kids, e.kids, v, bad, path + ".", false)) ok = false;
    }
    return ok;
}
inline bool valid (const Mold &m, const Cfg &c, std::vector<std::string> *bad = nullptr) { return valid (m.kids, c.kids, c.v, bad); }
inline const Def *active_default (const std::vector<Def> &d, Ver v)
{
    const Def *best = nullptr, *lo = nullptr;
    for (auto &x : d) { if (!lo || x.v < lo->v) lo = &x; if (x.v <= v && (!best || best->v < x.v)) best = &x; }
    return best ? best : lo;
}
inline std::vector<CEl> generate (const std::vector<MEl> &m, Ver v, bool all = false)
{
    std::vector<CEl> r;
    for (auto &e : m)
    {
        int min, max; limits (e, v, min, max);
        if (all && min == 0 && max != -1) min = 1;
        for (int i = 0; i < min; i++)
            if (e.sec) r.push_back (CEl::section (e.name, generate (e.kids, v, all)));
            else r.push_back (CEl::kv (e.name, active_default (e.defs, v)->val));
    }
    return r;
}
// per-name order is what documents preserve: normalise to stable order by name
inline std::vector<CEl> by_name (std::vector<CEl> k)
{
    for (auto &e : k) if (e.sec) e.kids = by_name (e.kids);
    std::stable_sort (k.begin (), k.end (), [] (const CEl &a, const CEl &b) { return a.name < b.name; });
    return k;
}

// ---- building through the API ----------------------------------------------------------------
inline const char *st (enum disir_status s) { return disir_status_string (s); }
inline enum disir_status set_value (disir_context *c, const Val &v)
{
    switch (v.t)
    {
    case STR: return dc_set_value_string (c, v.s.c_str (), v.s.size ());
    case ENUM: return dc_set_value_enum (c, v.s.c_str (), v.s.size ());
    case INT: return dc_set_value_integer (c, v.i);
    case FLT: return dc_set_value_float (c, v.d);
    default: return dc_set_value_boolean (c, v.b);
    }
}
inline enum disir_status get_value (disir_context *c, Val &v)
{
    enum disir_value_type t; enum disir_status s = dc_get_value_type (c, &t);
    if (s) return s;
    v = Val (); v.t = t; const char *p = NULL; int32_t n = 0; uint8_t b = 0;
    switch (t)
    {
    case STR: s = dc_get_value_string (c, &p, &n); if (s == 0 && p) v.s.assign (p, n); else if (s == 0) v.unset = true; break;
    case ENUM: s = dc_get_value_enum (c, &p, &n); if (s == 0 && p) v.s.assign (p, n); else if (s == 0) v.unset = true; break;
    case INT: s = dc_get_value_integer (c, &v.i); break;
    case FLT: s = dc_get_value_float (c, &v.d); break;
    case BOOL: s = dc_get_value_boolean (c, &b); v.b = b; break;
    default: return DISIR_STATUS_WRONG_VALUE_TYPE;
    }
    return s;
}
struct Steps { std::vector<std::string> log; bool any_bad = false;
    enum disir_status operator() (const char *what, enum disir_status s) { if (s != DISIR_STATUS_OK) { any_bad = true; log.push_back (strf ("%s: %s", what, st (s))); } return s; } };
inline void drop (disir_context *&c) { if (c) dc_putcontext (&c); }
inline void add_docs (Steps &S, disir_context *p, const std::vector<Doc> &docs)
{
    for (auto &d : docs)
    {
        disir_context *c = NULL; disir_version v = d.v.v ();
        if (S ("begin doc", dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &c))) continue;
        S ("doc introduced", dc_add_introduced (c, &v));
        S ("doc value", dc_set_value_string (c, d.s.c_str (), d.s.size ()));
        if (S ("finalize doc", dc_finalize (&c))) drop (c);
    }
}
inline enum disir_status add_default (Steps &S, disir_context *k, const Def &d)
{
    disir_context *c = NULL; disir_version v = d.v.v (); enum disir_status s;
    if ((s = S ("begin default", dc_begin (k, DISIR_CONTEXT_DEFAULT, &c)))) return s;
    S ("default introduced", dc_add_introduced (c, &v));
    S ("default value", set_value (c, d.val));
    if ((s = S ("finalize default", dc_finalize (&c)))) drop (c);
    return s;
}
inline enum disir_status add_restriction (Steps &S, disir_context *k, const Res &r)
{
    disir_context *c = NULL; enum disir_status s;
    if ((s = S ("begin restriction", dc_begin (k, DISIR_CONTEXT_RESTRICTION, &c)))) return s;
    if ((s = S ("restriction type", dc_set_restriction_type (c, (enum disir_restriction_type) r.kind)))) { drop (c); return s; }
    if (r.kind == RENUM) S ("restriction string", dc_restriction_set_string (c, r.s.c_str ()));
    else if (r.kind == RRANGE) S ("restriction range", dc_restriction_set_range (c, r.x, r.y));
    else S ("restriction numeric", dc_restriction_set_numeric (c, r.x));
    disir_version v = r.in.v (); S ("restriction introduced", dc_add_introduced (c, &v));
    if (r.hasdep) { disir_version d = r.dep.v (); S ("restriction deprecated", dc_add_deprecated (c, &d)); }
    add_docs (S, c, r.docs);
    if ((s = S ("finalize restriction", dc_finalize (&c)))) drop (c);
    return s;
}
inline void build_mold_kids (Steps &S, disir_context *p, const std::vector<MEl> &kids)
{
    for (auto &e : kids)
    {
        disir_context *c = NULL;
        if (S ("begin element", dc_begin (p, e.sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &c))) continue;
        if (!e.name.empty ()) S ("set name", dc_set_name (c, e.name.c_str (), e.name.size ()));
        if (!e.sec && e.t) S ("set type", dc_set_value_type (c, (enum disir_value_type) e.t));
        if (e.hasin) { disir_version v = e.in.v (); S ("introduced", dc_add_introduced (c, &v)); }
        if (e.hasdep) { disir_version v = e.dep.v (); S ("deprecated", dc_add_deprecated (c, &v)); }
        add_docs (S, c, e.docs);
        for (auto &d : e.defs) add_default (S, c, d);
        for (auto &r : e.res) add_restriction (S, c, r);
        if (e.sec) build_mold_kids (S, c, e.kids);
        if (S ("finalize element", dc_finalize (&c))) drop (c);
    }
}
inline enum disir_status build_mold (const Mold &m, disir_mold **out, Steps *steps = nullptr)
{
    Steps local; Steps &S = steps ? *steps : local;
    disir_context *c = NULL; *out = NULL; enum disir_status s;
    if ((s = dc_mold_begin (&c))) return s;
    add_docs (S, c, m.docs);
    build_mold_kids (S, c, m.kids);
    s = dc_mold_finalize (&c, out);
    if (c) dc_destroy (&c);
    return s;
}
inline void build_config_kids (Steps &S, disir_context *p, const std::vector<CEl> &kids)
{
    for (auto &e : kids)
    {
        disir_context *c = NULL;
        if (S ("begin element", dc_begin (p, e.sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &c))) continue;
        S ("set name", dc_set_name (c, e.name.c_str (), e.name.size ()));
        if (!e.sec && !e.valueless) S ("set value", set_value (c, e.val));
        if (e.sec) build_config_kids (S, c, e.kids);
        if (S ("finalize element", dc_finalize (&c))) drop (c);
    }
}
inline enum disir_status build_config (const Cfg &m, disir_mold *mold, disir_config **out, Steps *steps = nullptr)
{
    Steps local; Steps &S = steps ? *steps : local;
    disir_context *c = NULL; *out = NULL; enum disir_status s; disir_version v = m.v.v ();
    if ((s = dc_config_begin (mold, &c))) return s;
    if ((s = dc_set_version (c, &v))) { dc_destroy (&c); return s; }
    build_config_kids (S, c, m.kids);
    s = dc_config_finalize (&c, out);
    if (c) dc_destroy (&c);
    return s;
}

// ---- reading back through the API --------------------------------------------------------------
template <class F> inline bool each (disir_collection *col, F f)
{
    disir_context *e = NULL; bool ok = true;
    while (dc_collection_next (col, &e) == DISIR_STATUS_OK) { if (ok) ok = f (e); dc_putcontext (&e); }
    dc_collection_finished (&col);
    return ok;
}
inline bool dump_kids (disir_context *p, std::vector<CEl> &out, std::string &err)
{
    disir_collection *col = NULL;
    enum disir_status s = dc_get_elements (p, &col);
    if (s) { err = strf ("dc_get_elements: %s", st (s)); return false; }
    return each (col, [&] (disir_context *e) {
        CEl x; const char *n = NULL; int32_t sz = 0;
        if (dc_get_name (e, &n, &sz) || !n) { err = "element without name"; return false; }
        if ((size_t) sz != strlen (n)) { err = strf ("name %s has size %d", n, sz); return false; }
        x.name = n; x.sec = dc_context_type (e) == DISIR_CONTEXT_SECTION;
        if (x.sec) { if (!dump_kids (e, x.kids, err)) return false; }
        else { enum disir_status r = get_value (e, x.val); if (r) { err = strf ("value of %s: %s", n, st (r)); return false; } }
        out.push_back (x); return true; });
}
inline bool dump_config (disir_config *c, Cfg &out, std::string &err)
{
    disir_version v; out = Cfg ();
    if (dc_config_get_version (c, &v)) { err = "version"; return false; }
    out.v = Ver (v.sv_major, v.sv_minor);
    disir_context *x = dc_config_getcontext (c);
    bool ok = dump_kids (x, out.kids, err);
    dc_putcontext (&x);
    return ok;
}
// documentation cannot be listed: probed at each version of `probe`; consecutive duplicates removed
inline std::vector<Doc> dump_docs (disir_context *c, const std::vector<Ver> &probe)
{
    std::vector<Doc> r;
    for (auto &v : probe)
    {
        disir_version x = v.v (); const char *d = NULL; int32_t n = 0;
        if (dc_get_documentation (c, &x, &d, &n) == DISIR_STATUS_OK && d) r.push_back ({ v, d });
    }
    return r;
}
inline std::vector<Doc> ref_docs (const std::vector<Doc> &docs, const std::vector<Ver> &probe)
{
    std::vector<Doc> r; std::vector<Def> d; for (auto &x : docs) d.push_back ({ x.v, Val::str (x.s) });
    if (docs.empty ()) return r;
    for (auto &v : probe) r.push_back ({ v, active_default (d, v)->val.s });
    return r;
}
inline bool dump_mold_kids (disir_context *p, std::vector<MEl> &out, const std::vector<Ver> &probe, std::string &err)
{
    disir_collection *col = NULL;
    enum disir_status s = dc_get_elements (p, &col);
    if (s) { err = strf ("dc_get_elements: %s", st (s)); return false; }
    return each (col, [&] (disir_context *e) {
        MEl x; const char *n = NULL; int32_t sz = 0;
        if (dc_get_name (e, &n, &sz) || !n) { err = "element without name"; return false; }
        x.name = n; x.sec = dc_context_type (e) == DISIR_CONTEXT_SECTION;
        disir_version v;
        if (!x.sec)
        {
            enum disir_value_type t; if (dc_get_value_type (e, &t)) { err = "type"; return false; } x.t = t;
            disir_collection *dc = NULL;
            if (dc_get_default_contexts (e, &dc) == DISIR_STATUS_OK)
                each (dc, [&] (disir_context *d) { Def y; get_value (d, y.val); dc_get_introduced (d, &v); y.v = Ver (v.sv_major, v.sv_minor); x.defs.push_back (y); return true; });
        }
        else if (dc_get_introduced (e, &v) == DISIR_STATUS_OK) { x.hasin = true; x.in = Ver (v.sv_major, v.sv_minor); }
        if (dc_get_deprecated (e, &v) == DISIR_STATUS_OK && (v.sv_major || v.sv_minor)) { x.hasdep = true; x.dep = Ver (v.sv_major, v.sv_minor); }
        disir_collection *rc = NULL;
        if (dc_restriction_collection (e, &rc) == DISIR_STATUS_OK)
            each (rc, [&] (disir_context *r) {
                Res y; enum disir_restriction_type t; dc_get_restriction_type (r, &t); y.kind = t;
                if (t == RENUM) { const char *z = NULL; dc_restriction_get_string (r, &z); y.s = z ? z : "<null>"; }
                else if (t == RRANGE) dc_restriction_get_range (r, &y.x, &y.y);
                else dc_restriction_get_numeric (r, &y.x);
                dc_get_introduced (r, &v); y.in = Ver (v.sv_major, v.sv_minor);
                if (dc_get_deprecated (r, &v) == DISIR_STATUS_OK && (v.sv_major || v.sv_minor)) { y.hasdep = true; y.dep = Ver (v.sv_major, v.sv_minor); }
                y.docs = dump_docs (r, probe); x.res.push_back (y); return true; });
        x.docs = dump_docs (e, probe);
        if (x.sec && !dump_mold_kids (e, x.kids, probe, err)) return false;
        out.push_back (x); return true; });
}
inline bool dump_mold (disir_mold *m, Mold &out, const std::vector<Ver> &probe, std::string &err)
{
    out = Mold (); disir_context *x = dc_mold_getcontext (m);
    bool ok = dump_mold_kids (x, out.kids, probe, err);
    out.docs = dump_docs (x, probe);
    dc_putcontext (&x);
    return ok;
}
// canonical form of a model mold as dump_mold would render it
inline void canon (std::vector<MEl> &k, const std::vector<Ver> &probe, bool sort = false)
{
    for (auto &e : k)
    {
        std::stable_sort (e.defs.begin (), e.defs.end (), [] (const Def &a, const Def &b) { return a.v < b.v; });
        e.docs = ref_docs (e.docs, probe);
        for (auto &r : e.res) r.docs = ref_docs (r.docs, probe);
        if (e.sec && !e.hasin) { e.hasin = true; e.in = Ver (1, 0); }
        if (e.hasdep && !e.dep.a && !e.dep.b) e.hasdep = false;
        if (!e.sec) e.hasin = false;
        canon (e.kids, probe, sort);
    }
    if (sort) std::stable_sort (k.begin (), k.end (), [] (const MEl &a, const MEl &b) { return a.name < b.name; });
}
inline Mold canon (Mold m, const std::vector<Ver> &probe, bool sort = false) { canon (m.kids, probe, sort); m.docs = ref_docs (m.docs, probe); return m; }

struct MoldH { disir_mold *p = NULL; ~MoldH () { if (p) disir_mold_finished (&p); } };
struct CfgH { disir_config *p = NULL; ~CfgH () { if (p) disir_config_finished (&p); } };
struct CtxH { disir_context *p = NULL; ~CtxH () { if (p) dc_putcontext (&p); } };
}
#endif
