// System call control: every file system call of this process traps to a handler that records it, can let
// the k-th one fail, keeps modifications inside the scratch directory and can redirect a path prefix.
#ifndef SYS_H
#define SYS_H
#include <string>
#include <vector>
#include <string.h>
#include <stddef.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <ucontext.h>
namespace sys {
extern "C" long mc_raw_syscall (long n, long a, long b, long c, long d, long e, long f);
extern "C" char mc_raw_begin[], mc_raw_end[];
__asm__ (".text\n.globl mc_raw_begin\nmc_raw_begin:\n.globl mc_raw_syscall\nmc_raw_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n.globl mc_raw_end\nmc_raw_end:\n nop\n");
struct Call { int nr; long ret; int fd; bool modifies, escaped, injected, cut; long size; char path[300], path2[300]; };
enum { MAXC = 4000 };
static Call rec[MAXC]; static int nrec, overflow; static bool recording, armed;
static char root[256], redir_from[64], redir_to[256];       // modifications outside root are refused while recording
static int fail_at = -1, fail_err, fail_short, fail2_at = -1, fail2_err, fail2_short; static bool persist; static char tmpbuf[2][4600]; static bool fd_in[1024]; static char fd_path[1024][300];
// crash_at: the process ends at this recorded call (crash_cut: after that many bytes of it, if it is a write); hook: called before every recorded call
static int crash_at = -1; static long crash_cut = -1; static void (*hook) (int index, const Call &c);
inline const char *name (int nr)
{
    switch (nr) { case SYS_open: case SYS_openat: return "open"; case SYS_creat: return "creat"; case SYS_stat: case SYS_newfstatat: case SYS_statx: return "stat"; case SYS_lstat: return "lstat"; case SYS_fstat: return "fstat"; case SYS_access: case SYS_faccessat: case 439: return "access";
    case SYS_mkdir: case SYS_mkdirat: return "mkdir"; case SYS_rmdir: return "rmdir"; case SYS_unlink: case SYS_unlinkat: return "unlink"; case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename"; case SYS_link: case SYS_linkat: return "link"; case SYS_symlink: case SYS_symlinkat: return "symlink"; case SYS_readlink: case SYS_readlinkat: return "readlink";
    case SYS_chmod: case SYS_fchmodat: return "chmod"; case SYS_fchmod: return "fchmod"; case SYS_truncate: return "truncate"; case SYS_ftruncate: return "ftruncate"; case SYS_read: return "read"; case SYS_pread64: return "pread"; case SYS_readv: return "readv"; case SYS_write: return "write"; case SYS_pwrite64: return "pwrite"; case SYS_writev: return "writev"; case SYS_close: return "close"; case SYS_lseek: return "lseek"; case SYS_getdents64: return "getdents"; case SYS_fsync: return "fsync"; case SYS_fdatasync: return "fdatasync"; case SYS_utimensat: return "utimens"; case SYS_copy_file_range: return "copy_file_range"; case SYS_sendfile: return "sendfile"; case SYS_chdir: return "chdir"; case SYS_getcwd: return "getcwd"; default: return "?"; }
}
// without "." and ".." and double slashes; a relative path is below "cwd:"
inline void normal (const char *p, char *out, size_t n)
{
    size_t o = 0; if (*p != '/') { strcpy (out, "cwd:"); o = 4; } else out[0] = 0;
    while (*p)
    {
        while (*p == '/') p++; const char *e = p; while (*e && *e != '/') e++; size_t l = e - p; if (!l) break;
        if (l == 1 && *p == '.') ; else if (l == 2 && p[0] == '.' && p[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; out[o] = 0; } else { if (o + l + 2 >= n) break; out[o++] = '/'; memcpy (out + o, p, l); o += l; out[o] = 0; }
        p = e;
    }
    if (!o) strcpy (out, "/");
}
inline bool below (const char *p, const char *dir) { size_t l = strlen (dir); return !strncmp (p, dir, l) && (p[l] == 0 || p[l] == '/'); }
inline const char *redirect (const char *p, int which)
{
    size_t l = strlen (redir_from); if (!l || strncmp (p, redir_from, l)) return p;
    if (strlen (redir_to) + strlen (p) >= sizeof tmpbuf[0]) return p; strcpy (tmpbuf[which], redir_to); strcat (tmpbuf[which], p + l); return tmpbuf[which];
}
inline void handler (int, siginfo_t *si, void *u)
{
    ucontext_t *uc = (ucontext_t *) u; greg_t *g = uc->uc_mcontext.gregs; long nr = si->si_syscall, a[6] = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] }; int e0 = errno;
    int p1 = -1, p2 = -1, fd = -1; bool mod = false;
    switch (nr)
    {
    case SYS_open: p1 = 0; mod = a[1] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR); break; case SYS_openat: p1 = 1; mod = a[2] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR); break;
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: case SYS_chdir: p1 = 0; break; case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case 439: case SYS_readlinkat: p1 = 1; break;
    case SYS_creat: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_chmod: case SYS_truncate: p1 = 0; mod = true; break; case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat: case SYS_utimensat: p1 = 1; mod = true; break;
    case SYS_rename: case SYS_link: case SYS_symlink: p1 = 0; p2 = 1; mod = true; break; case SYS_renameat: case SYS_renameat2: case SYS_linkat: p1 = 1; p2 = 3; mod = true; break; case SYS_symlinkat: p1 = 0; p2 = 2; mod = true; break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_ftruncate: case SYS_fchmod: mod = true; /* fallthrough */ default: fd = a[0]; break;
    }
    if (p1 >= 0 && a[p1] && !*(const char *) a[p1]) { fd = a[0]; p1 = -1; }      // fstat by empty path
    if (p1 >= 0 && !a[p1]) { fd = a[0]; p1 = -1; }
    Call *c = NULL; bool inside = false; char np[4200]; np[0] = 0; bool esc = false;
    if (p1 >= 0)
    {
        a[p1] = (long) redirect ((const char *) a[p1], 0); if (p2 >= 0) a[p2] = (long) redirect ((const char *) a[p2], 1);
        normal ((const char *) a[p1], np, sizeof np); inside = *root && below (np, root); if (mod && !inside) esc = true;
        inside = inside || !(below (np, "/proc") || below (np, "/dev") || below (np, "/usr") || below (np, "/etc") || below (np, "/lib") || below (np, "/lib64"));
    }
    else if (fd >= 0 && fd < 1024) inside = fd_in[fd];
    if (recording && inside)
    {
        if (nrec >= MAXC) overflow = 1; else
        {
            c = &rec[nrec++]; c->nr = nr; c->fd = fd; c->modifies = mod; c->escaped = false; c->injected = c->cut = false; c->size = fd >= 0 ? a[2] : 0; c->path2[0] = 0;
            strncpy (c->path, p1 >= 0 ? np : fd_path[fd], sizeof c->path - 1); c->path[sizeof c->path - 1] = 0;
            if (p2 >= 0) { normal ((const char *) a[p2], np, sizeof np); if (*root && !below (np, root)) esc = true; strncpy (c->path2, np, sizeof c->path2 - 1); }
        }
    }
    if (recording && c && hook) hook (nrec - 1, *c);
    if (recording && c && nrec - 1 == crash_at) { if (crash_cut > 0 && nr == SYS_write) mc_raw_syscall (nr, a[0], a[1], crash_cut, 0, 0, 0); mc_raw_syscall (SYS_exit_group, 77, 0, 0, 0, 0, 0); }
    int fail_err = sys::fail_err, fail_short = sys::fail_short; long r; bool bad = recording && c && (nrec - 1 == fail_at || (persist && fail_at >= 0 && nrec - 1 > fail_at && nr == rec[fail_at].nr));
    if (recording && c && nrec - 1 == fail2_at) { bad = true; fail_err = fail2_err; fail_short = fail2_short; }
    if (recording && esc && p1 >= 0 && *root && !below (np, "/dev")) { r = -EACCES; if (c) c->escaped = true; }
    else if (bad && !fail_short && nr != SYS_close) { r = -fail_err; c->injected = true; }
    else
    {
        if (bad && fail_short && (nr == SYS_write || nr == SYS_read) && a[2] > 1) { a[2] /= 2; c->injected = c->cut = true; }
        r = mc_raw_syscall (nr, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (nr == SYS_close && fd >= 0 && fd < 1024) fd_in[fd] = false;
        if (bad && nr == SYS_close && !fail_short) { r = -fail_err; c->injected = true; }
        if ((nr == SYS_open || nr == SYS_openat || nr == SYS_creat) && r >= 0 && r < 1024) { fd_in[r] = inside && recording; strncpy (fd_path[r], np, 299); }
    }
    if (c) c->ret = r; g[REG_RAX] = r; errno = e0;
}
// false where the kernel does not offer it
inline bool arm (const char *rootdir)
{
    strncpy (root, rootdir, sizeof root - 1); if (armed) return true;
    struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; if (sigaction (SIGSYS, &sa, 0)) return false;
    static const int nrs[] = { SYS_open, SYS_openat, SYS_creat, SYS_stat, SYS_lstat, SYS_fstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, 439, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_readlink, SYS_readlinkat, SYS_chmod, SYS_fchmodat, SYS_fchmod, SYS_truncate, SYS_ftruncate, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev, SYS_close, SYS_lseek, SYS_getdents64, SYS_fsync, SYS_fdatasync, SYS_utimensat, SYS_copy_file_range, SYS_sendfile, SYS_chdir };
    const int N = sizeof nrs / sizeof *nrs; unsigned long lo = (unsigned long) mc_raw_begin, hi = (unsigned long) mc_raw_end;
    static sock_filter f[N + 12]; int k = 0; auto st = [&] (unsigned short code, unsigned v) { f[k++] = { code, 0, 0, v }; }; auto jp = [&] (unsigned short code, unsigned v, int t, int e) { f[k++] = { code, (unsigned char) t, (unsigned char) e, v }; };
    st (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, instruction_pointer) + 4); jp (BPF_JMP | BPF_JEQ | BPF_K, (unsigned) (lo >> 32), 0, 4);
    st (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, instruction_pointer)); jp (BPF_JMP | BPF_JGE | BPF_K, (unsigned) lo, 0, 2); jp (BPF_JMP | BPF_JGT | BPF_K, (unsigned) hi, 1, 0); st (BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, nr)); for (int i = 0; i < N; i++) jp (BPF_JMP | BPF_JEQ | BPF_K, nrs[i], N - i, 0);
    st (BPF_RET | BPF_K, SECCOMP_RET_ALLOW); st (BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    sock_fprog p = { (unsigned short) k, f }; if (prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false; if (syscall (SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &p)) return false; armed = true; return true;
}
// rewrites a path prefix in every call from now on
inline void redirect_prefix (const char *from, const char *to) { strcpy (redir_from, from); strcpy (redir_to, to); }
inline void begin (int fail = -1, int err = EIO, bool cut = false) { nrec = overflow = 0; fail_at = fail; fail_err = err; fail_short = cut; persist = false; fail2_at = -1; memset (fd_in, 0, sizeof fd_in); recording = true; }
// the call and every later one of its kind fails
inline void begin_persistent (int fail, int err, bool cut) { begin (fail, err, cut); persist = true; }
// two faults, the second at a later call
inline void begin_pair (int fail, int err, bool cut, int fail2, int err2, bool cut2) { begin (fail, err, cut); fail2_at = fail2; fail2_err = err2; fail2_short = cut2; }
inline void end () { recording = false; fail_at = -1; }
inline std::string show (const Call &c) { std::string p = c.path; size_t l = strlen (root); if (l && !p.compare (0, l, root)) p = "." + p.substr (l); std::string q = c.path2; if (l && !q.compare (0, l, root)) q = "." + q.substr (l); char b[700]; snprintf (b, sizeof b, "%s %s%s%s = %ld", name (c.nr), p.c_str (), q.empty () ? "" : " -> ", q.c_str (), c.ret); return b; }
}
#endif
