// C27: typed values read back exactly and type mismatches change nothing
// technique: exhaustive enumeration of typed set and get sequences and of texts and buffer sizes on the real contexts, against a one-value reference model
#include "rt.h"
#include <errno.h>
using namespace mc; using namespace mm;
static const int T[5] = { STR, INT, FLT, BOOL, ENUM }; static const char *N[5] = { "s", "i", "f", "b", "e" };
static disir_mold *mold ()
{
    static disir_mold *p; if (p) return p;
    Mold m; m.kids = { MEl::kv ("s", Val::str ("d")), MEl::kv ("i", Val::in (1)), MEl::kv ("f", Val::fl (1)), MEl::kv ("b", Val::bo (true)), MEl::kv ("e", Val::en ("a")).with (Res::en ("a")).with (Res::en ("bb")).with (Res::en ("a much longer enumerated value")) };
    Steps S; if (build_mold (m, &p, &S) || S.any_bad) abort (); return p;
}
static const std::vector<Val> &values (int t)
{
    static std::vector<Val> v[5];
    if (v[0].empty ())
    {
        v[0] = { Val::str (""), Val::str ("x"), Val::str ("a"), Val::str ("a somewhat longer text, with \"quotes\"\nand lines\x80\xff"), Val::str (std::string ("nul\0inside", 10)) };
        v[1] = { Val::in (0), Val::in (-1), Val::in (INT64_MAX), Val::in (INT64_MIN), Val::in (4294967296ll) };
        v[2] = { Val::fl (0), Val::fl (-0.0), Val::fl (1.5), Val::fl (1e300), Val::fl (5e-324) };
        v[3] = { Val::bo (false), Val::bo (true) }; v[4] = { Val::en ("a"), Val::en ("bb"), Val::en ("a much longer enumerated value"), Val::en ("other"), Val::en ("") };
    }
    for (int k = 0; k < 5; k++) if (T[k] == t) return v[k];
    abort ();
}
static bool same (const Val &a, const Val &b) { return a.t == b.t && a.s == b.s && a.i == b.i && !memcmp (&a.d, &b.d, 8) && a.b == b.b; }
// reads with the getter of type t
static enum disir_status get_as (disir_context *x, int t, Val &v)
{
    const char *p = NULL; int32_t n = -1; uint8_t b = 7; int64_t i = 77; double d = 7.7; enum disir_status s; v = Val (); v.t = t;
    switch (t)
    {
    case STR: s = dc_get_value_string (x, &p, &n); if (!s) v.s = p ? std::string (p, n) : "<null>"; return s;
    case ENUM: s = dc_get_value_enum (x, &p, &n); if (!s) v.s = p ? std::string (p, n) : "<null>"; return s;
    case INT: s = dc_get_value_integer (x, &i); if (!s) v.i = i; return s;
    case FLT: s = dc_get_value_float (x, &d); if (!s) v.d = d; return s;
    default: s = dc_get_value_boolean (x, &b); if (!s) { v.b = b; if (b > 1) return DISIR_STATUS_INTERNAL_ERROR; } return s;
    }
}
static bool text (int t) { return t == STR || t == ENUM; }
static bool enum_ok (const std::string &s) { return s == "a" || s == "bb" || s == "a much longer enumerated value"; }
static void typed (Ctx &c)
{
    int owner = c.choose (4), k = c.choose (5), t = T[k], depth = c.thorough () ? 4 : 3; const char *on[] = { "finished keyval", "keyval of a finished config", "keyval under construction", "default" };
    disir_context *g = NULL, *x = NULL, *mk = NULL; disir_config *cfg = NULL; disir_mold *dm = NULL; std::string key = strf ("%d%d", owner, k);
    Val cur; bool known = true, broken = false; c.risk ("crash-typed");
    if (owner < 3)
    {
        dc_config_begin (mold (), &g); dc_begin (g, DISIR_CONTEXT_KEYVAL, &x); dc_set_name (x, N[k], 1);
        if (owner < 2)
        {
            cur = values (t)[0]; set_value (x, cur); enum disir_status s = dc_finalize_keep_reference (x); MC_CHECK (c, s == DISIR_STATUS_OK, "setup", "finalize: %s", st (s));
            if (owner == 1) { for (int j = 0; j < 5; j++) if (j != k) { disir_context *y = NULL; dc_begin (g, DISIR_CONTEXT_KEYVAL, &y); dc_set_name (y, N[j], 1); set_value (y, values (T[j])[0]); dc_finalize (&y); } s = dc_config_finalize (&g, &cfg); MC_CHECK (c, s == DISIR_STATUS_OK, "setup", "config: %s", st (s)); }
        }
        else known = false;
    }
    else
    {
        disir_context *d = NULL; dc_mold_begin (&g); dc_begin (g, DISIR_CONTEXT_KEYVAL, &mk); dc_set_name (mk, N[k], 1); dc_set_value_type (mk, (enum disir_value_type) t); dc_begin (mk, DISIR_CONTEXT_DEFAULT, &d); x = d; known = false;
        enum disir_value_type vt; dc_get_value_type (x, &vt); MC_CHECK (c, vt == t, "default-type", "a default of a %s has type %d", N[k], vt);
    }
    c.note ("%s of type %s\n", on[owner], N[k]);
    for (int i = 0; i < depth; i++)
    {
        int u = c.choose (5), nv = values (T[u]).size (), op = c.choose (nv); const Val &v = values (T[u])[op];
        enum disir_status s = set_value (x, v); c.note ("set %s: %s\n", v.show ().c_str (), st (s)); key += strf (",%d.%d", u, op);
        bool right = T[u] == t || (owner == 3 && text (T[u]) && text (t));
        if (owner == 2)
        {
            bool ok = right && (t != ENUM || enum_ok (v.s));
            MC_CHECK (c, s == (ok ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "construct-status", "%s while under construction: %s", right ? "a value of the type" : "a value of another type", st (s));
            known = right; if (right) cur = v; if (!ok) broken = true;
        }
        else if (!right) MC_CHECK (c, s == DISIR_STATUS_WRONG_VALUE_TYPE, "wrong-type", "a value of another type: %s", st (s));
        else if (owner < 2 && t == ENUM && !enum_ok (v.s)) MC_CHECK (c, s == DISIR_STATUS_RESTRICTION_VIOLATED, "restricted", "a value not in the enumeration: %s", st (s));
        else { MC_CHECK (c, s == DISIR_STATUS_OK, "refused", "a value of the type: %s", st (s)); cur = v; cur.t = t; known = true; }
        c.outcome (strf ("%s:%s", on[owner], st (s)));
        if (known)
        {
            for (int r = 0; r < 5; r++)
            {
                Val got; s = get_as (x, T[r], got);
                if (T[r] == t) { MC_CHECK (c, s == DISIR_STATUS_OK, "get", "getting the value: %s", st (s)); MC_CHECK (c, same (got, cur), "value", "read back %s instead of %s", got.show ().c_str (), cur.show ().c_str ()); }
                else MC_CHECK (c, s == DISIR_STATUS_WRONG_VALUE_TYPE, "get-wrong", "getting a %s from a %s: %s", N[r], N[k], st (s));
            }
        }
        c.state (strf ("%d%d", owner, k) + (known ? cur.show () : "?"));
    }
    if (owner == 2)
    {
        enum disir_status s = dc_finalize_keep_reference (x); bool ok = known && !broken;
        if (ok) MC_CHECK (c, s == DISIR_STATUS_OK, "finalize", "finalizing with %s: %s", cur.show ().c_str (), st (s));
        else if (!known || (t == ENUM && !enum_ok (cur.s))) MC_CHECK (c, s == DISIR_STATUS_INVALID_CONTEXT, "finalize-bad", "finalizing a keyval with a value that is not allowed: %s", st (s));
    }
    if (owner == 3) { dc_destroy (&x); dc_destroy (&mk); } else { dc_putcontext (&x); if (cfg) disir_config_finished (&cfg); }
    if (g) dc_destroy (&g);
    (void) dm; c.nontrivial (key); c.validated ();
}
// ---- text ------------------------------------------------------------------------------------------
struct Kv { disir_config *cfg; disir_context *root, *k[5]; };
static Kv &kv ()
{
    static Kv v; if (v.cfg) return v;
    if (disir_generate_config_from_mold (mold (), NULL, &v.cfg)) abort ();
    v.root = dc_config_getcontext (v.cfg); for (int i = 0; i < 5; i++) if (dc_find_element (v.root, N[i], 0, &v.k[i])) abort (); return v;
}
static std::string rendered (const Val &v) { return text (v.t) ? v.s : v.t == INT ? strf ("%lld", (long long) v.i) : v.t == FLT ? strf ("%f", v.d) : v.b ? "True" : "False"; }
static void render (Ctx &c)
{
    int k = c.choose (5), t = T[k]; std::vector<Val> vs = values (t);
    if (t == INT) for (auto &i : rt::ints ()) vs.push_back (i);
    if (t == FLT) for (auto &d : rt::floats (c.thorough ())) vs.push_back (d);
    if (t == STR) for (int n : { 1, 2, 3, 15, 16, 17, 255, 256, 1000 }) vs.push_back (Val::str (std::string (n, 'q')));
    Val v = vs[c.choose (vs.size ())]; if (t == ENUM && !enum_ok (v.s)) c.prune ();
    Kv &K = kv (); disir_context *x = K.k[k]; c.note ("%s\n", v.show ().c_str ()); c.risk ("crash-render");
    MC_CHECK (c, set_value (x, v) == DISIR_STATUS_OK, "set", "cannot set");
    std::string want = rendered (v); int len = want.size (); std::vector<int> sizes; if (len < 60) for (int i = -1; i <= len + 3; i++) sizes.push_back (i); else sizes = { INT32_MIN, -1, 0, 1, 2, len / 2, len - 1, len, len + 1, len + 2, 2 * len };
    for (int size : sizes)
        for (int with = 0; with < 2; with++)
        {
            int n = size < 0 ? 0 : size; char *b = (char *) malloc (n + !n); memset (b, '~', n + !n); int32_t need = -5;
            enum disir_status s = dc_get_value (x, size, b, with ? &need : NULL); std::string got (b, n + !n); free (b);
            if (!n) { MC_CHECK (c, got == "~", "overflow", "a buffer of %d bytes is written to", size); if (s == DISIR_STATUS_OK && with) MC_CHECK (c, need == len, "needed", "size %d: %d bytes needed reported for %d", size, need, len); continue; }
            MC_CHECK (c, s == DISIR_STATUS_OK, "render-status", "size %d: %s", size, st (s));
            if (with) MC_CHECK (c, need == len, "needed", "size %d: %d bytes needed reported for %d", size, need, len);
            int m = std::min (len, n - 1); MC_CHECK (c, got.substr (0, m) == want.substr (0, m) && got[m] == 0, "render-text", "size %d: rendered as %s instead of %s", size, quote (got).c_str (), quote (want.substr (0, m)).c_str ());
            c.outcome (n > len ? "whole" : "cut");
        }
    // the text sets an equal value again, from a buffer without terminator
    Val other = values (t)[v.t == BOOL ? !v.b : same (v, values (t)[0]) ? 1 : 0]; set_value (x, other);
    char *raw = (char *) malloc (len + !len); memcpy (raw, want.data (), len); enum disir_status s = dc_set_value (x, raw, len); free (raw);
    if (t == FLT && (v.d != v.d || v.d - v.d != 0)) { c.nontrivial (v.show ()); return; }
    MC_CHECK (c, s == DISIR_STATUS_OK, "again", "setting %s again: %s", quote (want).c_str (), st (s));
    Val now; s = get_as (x, t, now); Val expect = v; if (t == FLT) expect.d = strtod (want.c_str (), NULL);
    MC_CHECK (c, !s && same (now, expect), "again-value", "%s sets %s", quote (want).c_str (), now.show ().c_str ());
    c.nontrivial (v.show ()); c.state (v.show ()); c.validated ();
}
// ---- parsing ------------------------------------------------------------------------------------------
static void parse_one (Ctx &c, int k, const std::string &s)
{
    int t = T[k]; Kv &K = kv (); disir_context *x = K.k[k]; Val before = values (t)[1]; set_value (x, before); c.note ("%s for %s\n", quote (s).c_str (), N[k]);
    bool ok = false; Val want = before; std::string z = s.substr (0, strlen (s.c_str ()));
    if (t == STR) { ok = true; want = Val::str (s); }
    else if (t == ENUM) { ok = enum_ok (s); if (ok) want = Val::en (s); }
    else if (t == BOOL) { char ch = z.empty () ? 0 : z[0]; ok = ch && strchr ("01tTfF", ch); if (ok) want = Val::bo (strchr ("1tT", ch) != NULL); }
    else if (t == INT)
    {
        size_t i = 0; while (i < z.size () && isspace ((unsigned char) z[i])) i++; bool neg = i < z.size () && z[i] == '-'; if (i < z.size () && (z[i] == '-' || z[i] == '+')) i++;
        size_t d = i; __int128 n = 0; while (i < z.size () && isdigit ((unsigned char) z[i])) { if (n < ((__int128) 1 << 100)) n = n * 10 + z[i] - '0'; i++; }
        if (neg) n = -n;
        ok = i > d && n <= INT64_MAX && n >= INT64_MIN; if (ok) want = Val::in ((int64_t) n);
    }
    else { char *e; errno = 0; double d = strtod (z.c_str (), &e); ok = e != z.c_str () && !(errno == ERANGE && d - d != 0); if (ok) want = Val::fl (d); }
    // the rest of the buffer would read as more digits
    std::string buf = s + "77"; char *raw = (char *) malloc (buf.size ()); memcpy (raw, buf.data (), buf.size ()); c.risk ("crash-parse");
    enum disir_status r = dc_set_value (x, raw, s.size ()); free (raw);
    Val now; enum disir_status q = get_as (x, t, now); MC_CHECK (c, !q, "parse-get", "get: %s", st (q));
    MC_CHECK (c, (r == DISIR_STATUS_OK) == ok, "parse-status", "%s for %s: %s", quote (s).c_str (), N[k], st (r));
    bool nan = t == FLT && want.d != want.d; MC_CHECK (c, nan ? now.d != now.d : same (now, want), ok ? "parse-value" : "parse-changed", "%s for %s leaves %s instead of %s", quote (s).c_str (), N[k], now.show ().c_str (), want.show ().c_str ());
    c.outcome (strf ("%s:%s", N[k], st (r))); c.nontrivial (strf ("%d", k) + s); c.validated ();
}
static void parse (Ctx &c)
{
    static const char A[] = "019-+. eEtTfFaxn\n\0_"; // 18 characters, one of them NUL
    int k = c.choose (5), n = 0, max = c.thorough () ? 5 : 4; std::string s;
    for (; n < max; n++) { int a = c.choose (sizeof A); if (!a) break; s += A[a - 1]; }
    parse_one (c, k, s);
}
static void parse_edge (Ctx &c)
{
    static const char *E[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999999", "0000000000000000000000000001", "1e308", "1e309", "-1e309", "1e-400", "5e-324", "inf", "-inf", "nan", "0x10", "0x1p4", "infinity", "True", "False", "true", "bb", "a much longer enumerated value", "a much longer enumerated valu", "a ", " a" };
    int k = c.choose (5); std::string s = E[c.choose (sizeof E / sizeof *E)]; parse_one (c, k, s);
}
static void misuse (Ctx &c)
{
    int k = c.choose (5), op = c.choose (9), t = T[k]; Kv &K = kv (); disir_context *x = K.k[k]; Val was = values (t)[1]; set_value (x, was); enum disir_status s = DISIR_STATUS_OK; char b[8]; c.risk ("crash-misuse"); c.note ("misuse %d of %s\n", op, N[k]);
    switch (op)
    {
    case 0: s = dc_set_value (x, NULL, 3); break; case 1: s = dc_set_value (x, "1", -1); break;
    case 2: s = dc_get_value (x, 8, NULL, NULL); break; case 3: s = dc_set_value_string (x, "x", -1); break; case 4: s = dc_set_value_enum (x, "a", -1); break;
    case 5: s = dc_get_value_integer (x, NULL); break; case 6: s = dc_set_value (K.root, "1", 1); break; case 7: s = dc_get_value (K.root, 8, b, NULL); break;
    default: s = dc_get_value_float (K.root, NULL); break;
    }
    MC_CHECK (c, s != DISIR_STATUS_OK, "misuse", "misuse %d of %s is accepted", op, N[k]);
    Val now; s = get_as (x, t, now); MC_CHECK (c, !s && same (now, was), "misuse-changed", "misuse %d leaves %s", op, now.show ().c_str ()); c.nontrivial (strf ("%d%d", k, op)); c.outcome ("misuse");
}
int main (int argc, char **argv)
{
    Info i = { "C27", "model_checking",
        "a distinct sequence of typed sets on a keyval (under construction, finished, in a finished config) or default of each type, with every getter after each; a distinct value rendered into every buffer size and set again; a distinct text set on a keyval of each type",
        { "floats are rendered with six decimals, so equal means equal after that rounding", "a text may be followed by anything after the value it starts with", "the two text types may be set on each other's defaults" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "typed", 4, typed }, { "render", 2, render }, { "parse", 3, parse }, { "parse-edge", 2, parse_edge }, { "misuse", 1, misuse } });
}
