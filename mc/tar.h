// Uncompressed ustar archives, byte by byte; and the archives of the library built from them.
#ifndef TAR_H
#define TAR_H
#include <string>
#include <vector>
#include <string.h>
#include <stdio.h>
namespace tar {
struct Item { std::string path, data; char type; std::string link; int mode; Item (const std::string &p, const std::string &d, char t = '0', const std::string &l = "", int m = 0644) : path (p), data (d), type (t), link (l), mode (m) {} };
inline std::string header (const Item &i)
{
    char h[512]; memset (h, 0, sizeof h); strncpy (h, i.path.c_str (), 99); snprintf (h + 100, 8, "%07o", i.mode); snprintf (h + 108, 8, "%07o", 0); snprintf (h + 116, 8, "%07o", 0); snprintf (h + 124, 12, "%011o", (unsigned) i.data.size ()); snprintf (h + 136, 12, "%011o", 0);
    h[156] = i.type; strncpy (h + 157, i.link.c_str (), 99); memcpy (h + 257, "ustar", 6); memcpy (h + 263, "00", 2); memset (h + 148, ' ', 8); unsigned s = 0; for (int k = 0; k < 512; k++) s += (unsigned char) h[k]; snprintf (h + 148, 8, "%06o", s); h[155] = ' '; return std::string (h, 512);
}
inline std::string body (const Item &i) { return header (i) + i.data + std::string ((512 - i.data.size () % 512) % 512, '\0'); }
inline std::string make (const std::vector<Item> &v) { std::string r; for (auto &i : v) r += body (i); return r + std::string (1024, '\0'); }
}
#endif
