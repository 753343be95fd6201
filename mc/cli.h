// Runs the command line tool: its main function in a child process, with its output, exit status and input.
#ifndef CLI_H
#define CLI_H
#include "fs.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <signal.h>
int disir_cli_main (int argc, char **argv);
namespace cli {
struct Out
{
    int status, sig; std::string out, err;
    std::vector<std::string> lines () const { std::vector<std::string> v; size_t a = 0; while (a < out.size ()) { size_t b = out.find ('\n', a); if (b == std::string::npos) b = out.size (); v.push_back (out.substr (a, b - a)); a = b + 1; } return v; }
    bool has (const std::string &line) const { for (auto &l : lines ()) if (l == line) return true; return false; }
    std::string all () const { return mc::strf ("exit %d%s\n--- out\n%s--- err\n%s", status, sig ? mc::strf (" (signal %d)", sig).c_str () : "", out.substr (0, 3000).c_str (), err.substr (0, 6000).c_str ()); }
    // "" or what is wrong with the way it ended
    std::string died () const { if (sig == SIGALRM || sig == SIGXCPU || sig == SIGXFSZ) return "does not end"; if (sig) return mc::strf ("dies of signal %d", sig); if (status == 99) return "memory error"; return ""; }
};
static int fd_in = -1, fd_out = -1, fd_err = -1;
inline std::string read_all (int fd) { std::string r; char b[4096]; off_t o = 0; ssize_t n; while ((n = pread (fd, b, sizeof b, o)) > 0) { r.append (b, n); o += n; } return r; }
inline Out run (const std::vector<std::string> &args, const std::string &input = "", const char *cwd = NULL)
{
    if (fd_in < 0) { fd_in = memfd_create ("in", 0); fd_out = memfd_create ("out", 0); fd_err = memfd_create ("err", 0); if (fd_err < 0) abort (); }
    if (ftruncate (fd_in, 0) || ftruncate (fd_out, 0) || ftruncate (fd_err, 0) || pwrite (fd_in, input.data (), input.size (), 0) != (ssize_t) input.size ()) abort ();
    for (int f : { fd_in, fd_out, fd_err }) lseek (f, 0, SEEK_SET);
    fflush (stdout); fflush (stderr); pid_t p = fork (); if (p < 0) abort ();
    if (!p)
    {
        dup2 (fd_in, 0); dup2 (fd_out, 1); dup2 (fd_err, 2); rlimit l = { 1 << 22, 1 << 22 }; setrlimit (RLIMIT_FSIZE, &l); rlimit t = { 10, 10 }; setrlimit (RLIMIT_CPU, &t); signal (SIGALRM, SIG_DFL); itimerval none = {}; setitimer (ITIMER_REAL, &none, NULL); sigset_t s; sigemptyset (&s); sigprocmask (SIG_SETMASK, &s, NULL); if (cwd && chdir (cwd)) _exit (98);
        std::vector<char *> av; av.push_back ((char *) "disir"); for (auto &a : args) av.push_back ((char *) a.c_str ()); av.push_back (NULL); alarm (60); int r = disir_cli_main (av.size () - 1, av.data ()); fflush (NULL); _exit (r);
    }
    int w = 0; while (waitpid (p, &w, 0) < 0 && errno == EINTR) ; Out o; o.sig = WIFSIGNALED (w) ? WTERMSIG (w) : 0; o.status = WIFEXITED (w) ? WEXITSTATUS (w) : -1; o.out = read_all (fd_out); o.err = read_all (fd_err); return o;
}
}
#endif
