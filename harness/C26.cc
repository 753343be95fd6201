// C26: error messages are delivered whole or visibly truncated, in bounds
// technique: exhaustive enumeration of operation sequences up to a depth on the real instance, every buffer size checked after each, against a one-message reference model
#include "rt.h"
using namespace mc; using namespace mm;
extern "C" int mc_log_to_null;
static const int LEN[] = { 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 255, 256, 257, 511, 512, 513, 1024, 4097 };
static std::string body (int len, int salt) { std::string s; for (int i = 0; i < len; i++) s += (char) ('a' + (i * 7 + salt * 5) % 26); return s; }
struct Inst { disir_instance *p; bool has; std::string msg; };
static void copies (Ctx &c, Inst &x, const char *when)
{
    const char *now = disir_error (x.p); MC_CHECK (c, (now != NULL) == x.has && (!now || x.msg == now), "current", "%s: the message is %s, expected %s", when, now ? quote (std::string (now).substr (0, 60)).c_str () : "absent", x.has ? quote (x.msg.substr (0, 60)).c_str () : "none");
    std::string m = x.has ? x.msg : ""; int len = m.size (); std::vector<int> sizes;
    if (len <= 40) for (int i = -1; i <= len + 3; i++) sizes.push_back (i);
    else { for (int i : { -2147483647, -1, 0, 1, 2, 3, 4, 5, 6, len / 2, len - 5, len - 4, len - 3, len - 2, len - 1, len, len + 1, len + 2, len + 3, len + 4, len + 5, 2 * len }) sizes.push_back (i); }
    for (int size : sizes)
    {
        for (int with = 0; with < 2; with++)
        {
            int n = size < 0 ? 0 : size; char *b = (char *) malloc (n + (n == 0)); memset (b, '~', n + (n == 0)); int32_t wrote = -77;
            c.risk ("copy-crash"); enum disir_status s = disir_error_copy (x.p, b, size, with ? &wrote : NULL);
            std::string got = n ? std::string (b, strnlen (b, n)) : ""; bool whole = n > len; char first = *b;
            bool full = n && (int) got.size () == n; free (b);
            if (whole)
            {
                MC_CHECK (c, s == DISIR_STATUS_OK, "fits-refused", "%s: a message of %d characters into %d bytes: %s", when, len, size, st (s));
                MC_CHECK (c, got == m, "fits-text", "%s: a message of %d characters into %d bytes is delivered as %s", when, len, size, quote (got.substr (0, 80)).c_str ());
            }
            else
            {
                MC_CHECK (c, s == DISIR_STATUS_INSUFFICIENT_RESOURCES, "short-status", "%s: a message of %d characters into %d bytes: %s", when, len, size, st (s));
                if (n >= 4) MC_CHECK (c, !full && got == m.substr (0, n - 4) + "...", "short-text", "%s: a message of %d characters into %d bytes is delivered as %s", when, len, size, quote (got.substr (0, 80)).c_str ());
                if (n == 0) MC_CHECK (c, first == '~', "overflow", "%s: a buffer of %d bytes is written to", when, size);
            }
            if (with) MC_CHECK (c, wrote == len || (n < 4 && wrote == -77), "length", "%s: the length reported for a message of %d characters and %d bytes is %d", when, len, size, wrote);
            c.outcome (whole ? "whole" : n >= 4 ? "cut" : "none");
        }
        c.transition (m, strf ("%d", size));
    }
    MC_CHECK (c, disir_error_copy (x.p, NULL, 10, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "null-buffer", "no buffer is not an invalid argument");
    char d[8]; MC_CHECK (c, disir_error_copy (NULL, d, 8, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "null-instance", "no instance is not an invalid argument");
    now = disir_error (x.p); MC_CHECK (c, (now != NULL) == x.has && (!now || x.msg == now), "copy-changes", "%s: copying changed the message", when);
}
static void sequence (Ctx &c, int depth, bool all)
{
    const int NL = sizeof LEN / sizeof *LEN; static Inst I[2]; if (!I[0].p) for (auto &x : I) if (disir_instance_create (NULL, NULL, &x.p)) abort ();
    for (auto &x : I) { disir_error_clear (x.p); x.has = false; x.msg.clear (); }
    std::string key;
    for (int d = 0; d < depth; d++)
    {
        int nl = all ? NL : 7, op = c.choose (nl + 6); static const int few[] = { 0, 3, 4, 8, 11, 16, 17 }; Inst &x = I[0];
        if (op < nl) { x.msg = body (LEN[all ? op : few[op]], d); x.has = true; c.note ("set a message of %zu characters\n", x.msg.size ()); disir_error_set (x.p, "%s", x.msg.c_str ()); }
        else if (op == nl) { c.note ("set a message with a number\n"); disir_error_set (x.p, "%s=%d%%n", "value", d); x.msg = strf ("value=%d%%n", d); x.has = true; }
        else if (op == nl + 1)
        {
            if (!x.has) c.prune (); c.note ("set a message quoting the previous one\n"); c.risk ("quote-crash");
            std::string was = x.msg; disir_error_set (x.p, "again: %s!", disir_error (x.p)); x.msg = "again: " + was + "!";
        }
        else if (op == nl + 2) { c.note ("clear\n"); disir_error_clear (x.p); x.has = false; x.msg.clear (); }
        else if (op == nl + 3) { c.note ("set on another instance\n"); Inst &y = I[1]; y.msg = body (33, d); y.has = true; disir_error_set (y.p, "%s", y.msg.c_str ()); }
        else if (op == nl + 4) { c.note ("a read from an unknown group\n"); disir_config *g = NULL; disir_config_read (x.p, "nowhere", "entry", NULL, &g); const char *e = disir_error (x.p); MC_CHECK (c, e && *e, "no-message", "a failed read leaves no message"); MC_CHECK (c, strstr (e, "nowhere"), "message", "the message of a failed read is %s", quote (e).c_str ()); x.msg = e; x.has = true; }
        else { c.note ("no message at all\n"); disir_error_set (x.p, NULL); disir_error_set (NULL, "%s", "x"); disir_log_user (x.p, "%s", "only logged"); }
        key += strf ("%d,", op);
    }
    copies (c, I[0], "after the sequence"); copies (c, I[1], "on the other instance");
    c.state (key); c.nontrivial (key); c.validated ();
}
// the message of a context: set by failing it, whole and quoted
static void context (Ctx &c)
{
    static disir_mold *m; if (!m) { Mold d; d.kids = { MEl::kv ("k", Val::in (1)) }; Steps S; if (build_mold (d, &m, &S)) abort (); }
    const int NL = sizeof LEN / sizeof *LEN; int kind = c.choose (3), steps = 1 + c.choose (3), op[3]; disir_context *g = NULL, *k = NULL;
    { disir_context *t = NULL; dc_config_begin (m, &t); dc_destroy (&t); }
    for (int i = 0; i < steps; i++) { op[i] = c.choose (NL + 1); if (!i && op[i] == NL) c.prune (); if (op[i] < NL) c.note ("fail the context with %d characters\n", LEN[op[i]]); else c.note ("fail the context quoting its message\n"); }
    c.risk ("context-crash"); size_t h0 = heap ();
    dc_config_begin (m, &g); if (kind) dc_begin (g, kind == 1 ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, &k); disir_context *x = k ? k : g;
    {
        std::string want; MC_CHECK (c, !dc_context_error (x), "context-early", "a new context has a message");
        for (int i = 0; i < steps; i++)
        {
            if (op[i] < NL) { want = body (LEN[op[i]], i); dc_fatal_error (x, "%s", want.c_str ()); }
            else { dc_fatal_error (x, "again: %s!", dc_context_error (x)); want = "again: " + want + "!"; }
            const char *e = dc_context_error (x); MC_CHECK (c, e && want == e, "context-text", "the context's message is %s", e ? quote (std::string (e).substr (0, 80)).c_str () : "missing");
            if (k) MC_CHECK (c, !dc_context_error (g), "context-parent", "the parent got the message");
        }
    }
    if (k) dc_destroy (&k);
    dc_destroy (&g); size_t h1 = heap ();
    MC_CHECK (c, h1 == h0, "context-leak", "%zd bytes remain", (ssize_t) (h1 - h0)); c.validated ();
    std::string key = strf ("%d", kind); for (int i = 0; i < steps; i++) key += strf (",%d", op[i]); c.nontrivial (key); c.outcome (strf ("context%d", steps));
}
int main (int argc, char **argv)
{
    mc_log_to_null = 1;
    Info i = { "C26", "model_checking",
        "a distinct sequence of message operations, after which every buffer size from -1 to three beyond the message (boundary sizes for long messages) is tried in an exactly sized heap buffer under AddressSanitizer",
        { "a message that formats to nothing leaves the previous one in place and is not enumerated" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "lengths", 2, [] (Ctx &c) { sequence (c, 2, true); } },
        { "sequences", 3, [] (Ctx &c) { sequence (c, c.thorough () ? 6 : 4, false); } },
        { "context", 2, context } });
}
