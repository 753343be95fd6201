// Operations in processes of their own: traced, ended at any of their system calls, or two of them interleaved call by call.
#ifndef PROC_H
#define PROC_H
#include "sys.h"
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
namespace proc {
enum { MARKS = 16, TEXT = 60000 };
struct Shared { int n, marks, mark[MARKS]; sys::Call rec[sys::MAXC]; char text[2][TEXT]; };
inline Shared *shared () { static Shared *s; if (!s) { s = (Shared *) mmap (NULL, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (s == MAP_FAILED) abort (); } return s; }
// called by the operation between its steps
inline void mark () { Shared *s = shared (); if (s->marks < MARKS) s->mark[s->marks++] = sys::nrec; }
struct Trace { std::vector<sys::Call> calls; std::vector<int> marks; int status; };
inline int wait_for (pid_t p) { int st = 0; while (waitpid (p, &st, 0) < 0 && errno == EINTR) ; return st; }
inline int run (const std::function<void ()> &fn, int at, long cut)
{
    Shared *s = shared (); s->n = s->marks = 0; fflush (stdout); fflush (stderr); pid_t p = fork (); if (p < 0) abort ();
    if (!p) { sys::crash_at = at; sys::crash_cut = cut; sys::begin (); fn (); sys::end (); s->n = sys::nrec; memcpy (s->rec, sys::rec, sizeof (sys::Call) * sys::nrec); _exit (0); }
    return wait_for (p);
}
inline Trace trace (const std::function<void ()> &fn) { Trace t; t.status = run (fn, -1, -1); Shared *s = shared (); t.calls.assign (s->rec, s->rec + s->n); t.marks.assign (s->mark, s->mark + s->marks); return t; }
// true when the process ended at the call
inline bool crash (const std::function<void ()> &fn, int at, long cut) { int st = run (fn, at, cut); return WIFEXITED (st) && WEXITSTATUS (st) == 77; }
// two operations in processes of their own, interleaved call by call: each stops before every call that visible() names
using sys::mc_raw_syscall;
static int go_fd = -1, at_fd = -1; static bool (*visible) (const sys::Call &c, const sys::Call *prev, const sys::Call *prev2);
inline void stop (char what) { char b = what; if (mc_raw_syscall (SYS_write, at_fd, (long) &b, 1, 0, 0, 0) != 1 || (what != 'e' && mc_raw_syscall (SYS_read, go_fd, (long) &b, 1, 0, 0, 0) != 1)) mc_raw_syscall (SYS_exit_group, 78, 0, 0, 0, 0, 0); }
inline void stop_at (int i, const sys::Call &c) { if (visible (c, i > 0 ? &sys::rec[i - 1] : NULL, i > 1 ? &sys::rec[i - 2] : NULL)) { Shared *s = shared (); s->rec[0] = c; stop ('p'); } }
struct Pair { std::string result[2]; int status[2], switches; std::string schedule; };
// choose () tells whether to switch to the other one here
inline Pair interleave (const std::function<std::string ()> *fn, int first, const std::function<bool (int who, const sys::Call &at)> &choose)
{
    Shared *s = shared (); pid_t pid[2]; int go[2], at[2]; Pair r; r.switches = 0; fflush (stdout); fflush (stderr);
    for (int i = 0; i < 2; i++)
    {
        int a[2], b[2]; s->text[i][0] = 0; if (pipe (a) || pipe (b)) abort (); pid[i] = fork (); if (pid[i] < 0) abort ();
        if (!pid[i]) { close (a[1]); close (b[0]); go_fd = a[0]; at_fd = b[1]; char x; if (mc_raw_syscall (SYS_read, go_fd, (long) &x, 1, 0, 0, 0) != 1) _exit (78); sys::hook = stop_at; sys::begin (); { std::string t = fn[i] (); sys::end (); snprintf (s->text[i], TEXT, "%s", t.c_str ()); } stop ('e'); _exit (0); }
        close (a[0]); close (b[1]); go[i] = a[1]; at[i] = b[0];
    }
    bool alive[2] = { true, true }; int cur = first;
    while (alive[0] || alive[1])
    {
        if (!alive[cur]) cur = !cur; char b = 'g', w = 0; if (mc_raw_syscall (SYS_write, go[cur], (long) &b, 1, 0, 0, 0) != 1 || mc_raw_syscall (SYS_read, at[cur], (long) &w, 1, 0, 0, 0) != 1 || w == 'e') { alive[cur] = false; continue; }
        if (alive[!cur] && choose (cur, s->rec[0])) { r.schedule += std::string (cur ? "the second" : "the first") + " waits before " + sys::show (s->rec[0]) + "\n"; r.switches++; cur = !cur; }
    }
    for (int i = 0; i < 2; i++) { close (go[i]); close (at[i]); r.status[i] = wait_for (pid[i]); r.result[i] = s->text[i]; }
    return r;
}
}
#endif
