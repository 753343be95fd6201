// Two filesystem-backed instances with the same molds: configs are exported from one and imported into the other.
// The archive code keeps its temporary files in /tmp; its system calls are redirected to a private directory.
#ifndef ARC_H
#define ARC_H
#include "fs.h"
#include "sys.h"
#include <disir/archive.h>
namespace arc {
using namespace mc; using namespace mm;
struct Group { const char *name; bool toml; };
static const Group GROUPS[] = { { "g", false }, { "h", true }, { "x.y", false } };
enum { NG = 3 };
static std::string base, tmp, dir[2][NG], molds[NG], home; static disir_instance *in[2]; static bool ready;
typedef std::pair<int, std::string> Id; // group, entry
typedef std::map<Id, std::string> Content;
inline std::string show (const Id &i) { return strf ("%s:%s", GROUPS[i.first].name, i.second.c_str ()); }
inline std::string shown (disir_config *p) { Cfg x; std::string e; return dump_config (p, x, e) ? mm::show (x) : "? " + e; }
inline std::string path (int side, const Id &i) { return dir[side][i.first] + "/" + i.second + (GROUPS[i.first].toml ? ".toml" : ".json"); }
inline void put_mold (const Id &i, const Mold &m) { std::string p = molds[i.first] + "/" + i.second; fs::mkdirs (p.substr (0, p.rfind ('/'))); fs::put (p + ".json", fs::mold_text (m)); }
inline void init (const char *s)
{
    base = s; tmp = base + "/tmp"; home = base + "/home"; fs::mkdirs (tmp); fs::mkdirs (home);
    for (int k = 0; k < 2; k++) { in[k] = fs::empty (); for (int g = 0; g < NG; g++) { dir[k][g] = base + strf ("/%c%d", "st"[k], g); molds[g] = base + strf ("/m%d", g); fs::mkdirs (dir[k][g]); fs::mkdirs (molds[g]); fs::attach (in[k], GROUPS[g].toml, dir[k][g], molds[g], GROUPS[g].name); } }
    ready = sys::arm (base.c_str ()); if (ready) sys::redirect_prefix ("/tmp/", (tmp + "/").c_str ());
}
inline void clear_side (int side) { for (int g = 0; g < NG; g++) fs::clear (dir[side][g]); }
inline void store (int side, const Id &i, const std::string &text) { std::string p = path (side, i); fs::mkdirs (p.substr (0, p.rfind ('/'))); fs::put (p, text); }
inline Content content (int side)
{
    Content c; for (int g = 0; g < NG; g++) for (auto &f : fs::snap (dir[side][g])) if (f.second != "/") c[Id (g, f.first.substr (0, f.first.rfind ('.')))] = f.second; return c;
}
inline std::string diff (const Content &want, const Content &got)
{
    std::string r; for (auto &x : want) { auto y = got.find (x.first); if (y == got.end ()) r += show (x.first) + " is missing; "; else if (y->second != x.second) r += show (x.first) + " differs; "; } for (auto &x : got) if (!want.count (x.first)) r += show (x.first) + " is extra; "; return r;
}
inline std::string left () { std::string r; for (auto &f : fs::snap (tmp)) r += f.first + " "; return r; }
inline int open_files () { int n = 0; DIR *d = opendir ("/proc/self/fd"); while (dirent *e = readdir (d)) n += e->d_name[0] != '.'; closedir (d); return n - 1; }
// imports everything, whatever the verdict; "" or what went wrong
inline std::string import_all (disir_instance *i, const std::string &archive, std::map<Id, std::string> &versions)
{
    disir_import *imp = NULL; int n = -1; versions.clear (); disir_error_clear (i); enum disir_status s = disir_archive_import (i, archive.c_str (), &imp, &n); if (s != DISIR_STATUS_OK) return strf ("import: %s (%s)", st (s), disir_error (i) ? disir_error (i) : "-");
    std::string r; for (int k = 0; k < n && r.empty (); k++)
    {
        const char *e = NULL, *g = NULL, *v = NULL, *info = NULL; s = disir_import_entry_status (imp, k, &e, &g, &v, &info); if (!e || !g || !v) { r = strf ("entry %d: %s", k, st (s)); break; }
        int gi = -1; for (int x = 0; x < NG; x++) if (!strcmp (g, GROUPS[x].name)) gi = x;
        if (gi < 0) { r = strf ("entry of group %s", g); break; } if (versions.count (Id (gi, e))) { r = strf ("%s:%s is listed twice", g, e); break; } versions[Id (gi, e)] = v;
        s = disir_import_resolve_entry (imp, k, DISIR_IMPORT_FORCE); if (s != DISIR_STATUS_OK) r = strf ("%s:%s cannot be forced: %s (%s)", g, e, st (s), info ? info : "-");
    }
    s = disir_import_finalize (i, r.empty () ? DISIR_IMPORT_DO : DISIR_IMPORT_DISCARD, &imp, NULL); if (r.empty () && s != DISIR_STATUS_OK) r = strf ("finalizing the import: %s (%s)", st (s), disir_error (i) ? disir_error (i) : "-");
    disir_error_clear (i); return r;
}
}
#endif
