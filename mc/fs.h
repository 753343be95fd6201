// A filesystem-backed instance in a scratch directory, and small file helpers.
#ifndef FS_H
#define FS_H
#include "mm.h"
#include <map>
#include <set>
#include <disir/plugin.h>
#include <disir/fslib/util.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
namespace fs {
using namespace mc; using namespace mm;
inline void put (const std::string &path, const std::string &s)
{
    int f = open (path.c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0 || write (f, s.data (), s.size ()) != (ssize_t) s.size ()) { perror (path.c_str ()); abort (); } close (f);
}
inline bool get (const std::string &path, std::string &s)
{
    s.clear (); int f = open (path.c_str (), O_RDONLY); if (f < 0) return false; char b[4096]; ssize_t n; while ((n = read (f, b, sizeof b)) > 0) s.append (b, n); close (f); return n == 0;
}
inline void mkdirs (const std::string &path) { for (size_t i = 1; i <= path.size (); i++) if (i == path.size () || path[i] == '/') mkdir (path.substr (0, i).c_str (), 0755); }
inline void clear (const std::string &dir)     // removes what is in the directory
{
    DIR *d = opendir (dir.c_str ()); if (!d) return; std::vector<std::string> v; while (dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) v.push_back (e->d_name);
    closedir (d); for (auto &n : v) { std::string p = dir + "/" + n; struct stat s; if (lstat (p.c_str (), &s)) continue; if (S_ISDIR (s.st_mode)) { chmod (p.c_str (), 0755); clear (p); rmdir (p.c_str ()); } else unlink (p.c_str ()); }
}
// relative path -> content ("/" for a directory)
inline void snap (const std::string &dir, std::map<std::string, std::string> &out, const std::string &rel = "")
{
    DIR *d = opendir ((dir + "/" + rel).c_str ()); if (!d) return; std::vector<std::string> v; while (dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) v.push_back (e->d_name);
    closedir (d); for (auto &n : v)
    {
        std::string r = rel.empty () ? n : rel + "/" + n, p = dir + "/" + r; struct stat s; if (lstat (p.c_str (), &s)) continue;
        if (S_ISDIR (s.st_mode)) { out[r] = "/"; snap (dir, out, r); } else if (S_ISLNK (s.st_mode)) { char b[4096]; ssize_t k = readlink (p.c_str (), b, sizeof b); out[r] = "->" + std::string (b, k < 0 ? 0 : k); } else { std::string t; get (p, t); out[r] = t; }
    }
}
typedef std::map<std::string, std::string> Snap;
inline Snap snap (const std::string &dir) { Snap m; snap (dir, m); return m; }
inline std::string diff (const Snap &a, const Snap &b)
{
    std::string r; for (auto &x : a) { auto y = b.find (x.first); if (y == b.end ()) r += "removed " + x.first + "; "; else if (y->second != x.second) r += "changed " + x.first + "; "; }
    for (auto &x : b) if (!a.count (x.first)) r += "new " + x.first + "; "; return r;
}
// the plugin structures of the shipped json and toml plugins; the toml one has json molds
inline disir_register_plugin plugin (bool toml, const std::string &cfg, const std::string &mold)
{
    disir_register_plugin p; memset (&p, 0, sizeof p); p.dp_name = (char *) (toml ? "TOML" : "JSON"); p.dp_description = (char *) "d"; p.dp_config_entry_type = (char *) (toml ? "toml" : "json"); p.dp_mold_entry_type = (char *) "json";
    p.dp_config_base_id = (char *) cfg.c_str (); p.dp_mold_base_id = (char *) mold.c_str ();
    if (toml) { p.dp_config_read = dio_toml_config_read; p.dp_config_write = dio_toml_config_write; p.dp_config_entries = dio_toml_config_entries; p.dp_config_query = dio_toml_config_query; p.dp_config_remove = dio_json_config_remove; p.dp_config_fd_read = dio_toml_unserialize_config; p.dp_config_fd_write = dio_toml_serialize_config; }
    else { p.dp_config_read = dio_json_config_read; p.dp_config_write = dio_json_config_write; p.dp_config_entries = dio_json_config_entries; p.dp_config_query = dio_json_config_query; p.dp_config_remove = dio_json_config_remove; p.dp_config_fd_read = dio_json_config_fd_read; p.dp_config_fd_write = dio_json_config_fd_write; }
    p.dp_mold_read = dio_json_mold_read; p.dp_mold_write = dio_json_mold_write; p.dp_mold_entries = dio_json_mold_entries; p.dp_mold_query = dio_json_mold_query; return p;
}
// an instance without plugins
inline disir_instance *empty ()
{
    static disir_mold *m; if (!m) { Mold d; Steps S; if (build_mold (d, &m, &S)) abort (); }
    disir_context *x = NULL; disir_config *g = NULL; disir_instance *i = NULL; if (dc_config_begin (m, &x) || dc_config_finalize (&x, &g) || disir_instance_create (NULL, g, &i)) abort (); return i;
}
inline void attach (disir_instance *i, bool toml, const std::string &cfg, const std::string &mold, const char *group)
{
    disir_register_plugin p = plugin (toml, cfg, mold); if (disir_plugin_register (i, &p, toml ? "toml" : "json", group)) abort ();
}
inline std::string mold_text (const Mold &m)
{
    disir_mold *p = NULL; Steps S; if (build_mold (m, &p, &S)) abort (); char *b = NULL; size_t n = 0; FILE *f = tmpfile (); static disir_instance *in; if (!in) in = empty ();
    if (dio_json_serialize_mold (in, p, f)) abort (); (void) b; (void) n; fflush (f); std::string r; char t[4096]; off_t o = 0; ssize_t k; while ((k = pread (fileno (f), t, sizeof t, o)) > 0) { r.append (t, k); o += k; } fclose (f); disir_mold_finished (&p); return r;
}
}
#endif
