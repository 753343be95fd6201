// C07: version text and ordering
// technique: exhaustive enumeration of the bounded input space against an arithmetic reference
#include "mc.h"
#include <disir/disir.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
using namespace mc;
typedef unsigned long long ull;

static const uint32_t GRID[] = { 0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 65535, 65536, 99999999u, 2147483646u, 2147483647u, 2147483648u, 2147483649u,
                                 3000000000u, 4294967294u, 4294967295u };
static const int NG = sizeof GRID / sizeof *GRID;
static int sgn (int x) { return x < 0 ? -1 : x > 0; }

static void order (Ctx &c)
{
    uint32_t a = GRID[c.choose (NG)], b = GRID[c.choose (NG)], x = GRID[c.choose (NG)], y = GRID[c.choose (NG)];
    c.note ("compare %u.%u with %u.%u", a, b, x, y);
    disir_version v1 = { a, b }, v2 = { x, y };
    int want = a != x ? (a < x ? -1 : 1) : b != y ? (b < y ? -1 : 1) : 0;
    int got = sgn (dc_version_compare (&v1, &v2));
    c.outcome (strf ("%d", got));
    c.nontrivial (strf ("o%u.%u/%u.%u", a, b, x, y));
    MC_CHECK (c, got == want, "order", "compare(%u.%u, %u.%u) has sign %d, expected %d", a, b, x, y, got, want);
    MC_CHECK (c, v1.sv_major == a && v1.sv_minor == b && v2.sv_major == x && v2.sv_minor == y, "order-modifies", "compare modified its arguments");
    disir_version d = { 7, 7 };
    dc_version_set (&d, &v1);
    MC_CHECK (c, d.sv_major == a && d.sv_minor == b, "set", "dc_version_set copied %u.%u to %u.%u", a, b, d.sv_major, d.sv_minor);
}

static void text (Ctx &c)
{
    uint32_t a = GRID[c.choose (NG)], b = GRID[c.choose (NG)];
    int size = c.choose (26);
    std::string want = std::to_string (a) + "." + std::to_string (b);
    c.note ("format %s into %d bytes", want.c_str (), size);
    disir_version v = { a, b };
    std::vector<char> big (64, 0x55);
    char *r = dc_version_string (big.data () + 16, size, &v);
    bool fits = (int) want.size () + 1 <= size;
    c.outcome (fits ? "fits" : "short");
    c.nontrivial (want + strf ("/%d", size));
    for (int i = 0; i < 64; i++)
        if (i < 16 || i >= 16 + size) MC_CHECK (c, big[i] == 0x55, "format-overflow", "byte %d outside the %d byte buffer was written", i - 16, size);
    MC_CHECK (c, (r != NULL) == fits, "format-status", "%s into %d bytes returned %s", want.c_str (), size, r ? "success" : "NULL");
    if (fits)
    {
        MC_CHECK (c, r == big.data () + 16 && want == r, "format-text", "formatted as '%s', expected '%s'", r, want.c_str ());
        disir_version p = { 1234, 5678 };
        enum disir_status s = dc_version_convert (r, &p);
        MC_CHECK (c, s == DISIR_STATUS_OK && p.sv_major == a && p.sv_minor == b, "roundtrip", "'%s' parsed as %u.%u status %s", r, p.sv_major, p.sv_minor, disir_status_string (s));
    }
}

// reference grammar. 1: digits '.' digits within 32 bits (must be accepted exactly);
// 0: no number, no dot after the first number, no number after the dot, negative or out of range
// (must be refused); 2: leading white space or '+', or trailing text (not specified)
static int ref_parse (const std::string &s, uint32_t &a, uint32_t &b)
{
    size_t i = 0; bool lax = false; ull x[2];
    for (int k = 0; k < 2; k++)
    {
        while (i < s.size () && isspace ((unsigned char) s[i])) { i++; lax = true; }
        bool neg = false;
        if (i < s.size () && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; lax = true; }
        size_t d0 = i; ull v = 0;
        while (i < s.size () && isdigit ((unsigned char) s[i])) { if (v < (1ull << 40)) v = v * 10 + (s[i] - '0'); i++; }
        if (i == d0) return 0;
        if (v > 0xffffffffull) return 0;
        if (neg && v) return 0;
        x[k] = v;
        if (k == 0) { if (i >= s.size () || s[i] != '.') return 0; i++; }
    }
    a = x[0]; b = x[1];
    return (lax || i != s.size ()) ? 2 : 1;
}

static void check_parse (Ctx &c, const std::string &s)
{
    c.note ("parse %s", quote (s).c_str ());
    uint32_t a = 0, b = 0; int ok = ref_parse (s, a, b);
    disir_version p = { 1234, 5678 };
    char *heapcopy = strdup (s.c_str ());      // exact size: reads beyond the end are caught
    enum disir_status st = dc_version_convert (heapcopy, &p);
    free (heapcopy);
    c.outcome (strf ("%d %d", st, ok)); c.nontrivial (s);
    if (ok == 1)
        MC_CHECK (c, st == DISIR_STATUS_OK && p.sv_major == a && p.sv_minor == b, "parse", "%s parsed as %u.%u (%s)", quote (s).c_str (), p.sv_major, p.sv_minor, disir_status_string (st));
    else if (ok == 0)
        MC_CHECK (c, st != DISIR_STATUS_OK, "parse-accepts", "%s accepted as %u.%u", quote (s).c_str (), p.sv_major, p.sv_minor);
    else if (st == DISIR_STATUS_OK)
        MC_CHECK (c, p.sv_major == a && p.sv_minor == b, "parse-lax", "%s parsed as %u.%u", quote (s).c_str (), p.sv_major, p.sv_minor);
}

static void parse_all (Ctx &c)
{
    static const char AL[] = "019.- +x";
    int len = c.choose (c.thorough () ? 8 : 6);
    std::string s;
    for (int i = 0; i < len; i++) s += AL[c.choose (8)];
    check_parse (c, s);
}

static void parse_long (Ctx &c)
{
    static const char *NUM[] = { "", "0", "1", "00", "01", "007", "4294967294", "4294967295", "4294967296", "42949672950", "9999999999", "99999999999999999999", "18446744073709551616",
        "18446744073709551617", "-1", "+1", " 1", "1 ", "0x1", "1e1", "a", "1a", "\t1", "1\n" };
    static const char *SEP[] = { ".", "", "..", ",", ". ", " .", ":" };
    int n = sizeof NUM / sizeof *NUM;
    std::string s = NUM[c.choose (n)]; s += SEP[c.choose (7)]; s += NUM[c.choose (n)];
    int t = c.choose (4);
    if (t == 1) s += ".0"; if (t == 2) s += "."; if (t == 3) s = "." + s;
    check_parse (c, s);
}

static void null_args (Ctx &c)
{
    int k = c.choose (5);
    disir_version v = { 3, 4 }; char b[16];
    c.note ("null argument case %d", k);
    c.nontrivial (strf ("null%d", k));
    if (k == 0) MC_CHECK (c, dc_version_string (NULL, 16, &v) == NULL, "null", "NULL buffer accepted");
    if (k == 1) MC_CHECK (c, dc_version_string (b, 16, NULL) == NULL, "null", "NULL version accepted");
    if (k == 2) MC_CHECK (c, dc_version_convert (NULL, &v) != DISIR_STATUS_OK, "null", "NULL text accepted");
    if (k == 3) MC_CHECK (c, dc_version_convert ("1.0", NULL) != DISIR_STATUS_OK, "null", "NULL output accepted");
    if (k == 4) MC_CHECK (c, dc_version_convert ("", &v) != DISIR_STATUS_OK, "null", "empty text accepted");
}

int main (int argc, char **argv)
{
    Info i = { "C07", "exploration",
        "every pair of versions over a 22-value grid per component (ordering); every version x every buffer size 0..25 (formatting, parse back); every text up to 5 (thorough 7) "
        "characters over {0,1,9,.,-,space,+,x} and every combination of boundary numerals and separators (parsing). All cases are distinct; none is trivial.",
        { "32-bit boundary values represent the remaining ones (the code has no value-dependent branches beyond ordering and digit parsing)" }, nullptr, nullptr };
    return mc::main (argc, argv, i, { { "order", 2, order }, { "text", 2, text }, { "parse", 4, parse_all }, { "parse-long", 2, parse_long }, { "null", 1, null_args } });
}
