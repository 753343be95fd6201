#ifndef TYPES_H
#define TYPES_H
#include <dirent.h>
#include <dlfcn.h>
// a filesystem that does not provide the types of directory entries
static bool no_types;
extern "C" dirent *readdir (DIR *d) { static dirent *(*real) (DIR *); if (!real) real = (dirent *(*) (DIR *)) dlsym (RTLD_NEXT, "readdir"); dirent *e = real (d); if (e && no_types) e->d_type = DT_UNKNOWN; return e; }
extern "C" dirent64 *readdir64 (DIR *d) { static dirent64 *(*real) (DIR *); if (!real) real = (dirent64 *(*) (DIR *)) dlsym (RTLD_NEXT, "readdir64"); dirent64 *e = real (d); if (e && no_types) e->d_type = DT_UNKNOWN; return e; }
#endif
