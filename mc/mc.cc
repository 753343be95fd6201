#include "mc.h"
#include <sanitizer/lsan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);

namespace mc {

static const int MAXC = 1024;
static const int NOTE = 1 << 16;
static const int MAXV = 24;

struct Vec { int n; uint16_t c[MAXC], a[MAXC]; };

struct Violation { Vec v; char sig[200]; char msg[4000]; uint64_t count; int crash; };

struct Slot
{
    volatile uint64_t execs, attempts, traces, choices;
    volatile int running, capped, done, failed_total;
    Vec v;
    char sig[200];
    char note[NOTE];
    int note_len;
    int nviol;
    Violation viol[MAXV];
    int nsamples;
    char samples[8][1500];
};

static Slot *S;
static Info I;
static bool g_thorough;
static char g_scratch[300];
static int fixed_n;              // length of the prescribed prefix
static int cur_bound_unused;
static int shard_depth, shard_i, shard_n;
static bool replaying, sharding;
static std::unordered_set<uint64_t> st_states, st_trans, st_out, st_nt;
static bool cur_valid;

size_t heap () { return __sanitizer_get_current_allocated_bytes (); }
const char *scratch () { return g_scratch; }

uint64_t hash (const void *p, size_t n, uint64_t h)
{
    const unsigned char *s = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
static uint64_t hs (const std::string &s, uint64_t seed = 1469598103934665603ull) { return hash (s.data (), s.size (), seed); }

std::string strf (const char *fmt, ...)
{
    char b[8192]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap); return b;
}
std::string quote (const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf (b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static bool mine (int upto)
{
    uint64_t h = hash (S->v.c, upto * sizeof (uint16_t), 77 + upto);
    return (int) (h % shard_n) == shard_i;
}

int Ctx::choose (int n, const char *label)
{
    (void) label;
    int i = S->v.n;
    if (n <= 0) { fprintf (stderr, "mc: choose(%d) %s\n", n, label); _exit (3); }
    if (i >= MAXC) { fprintf (stderr, "mc: too many choices\n"); _exit (3); }
    if (i < fixed_n)
    {
        if (!replaying && S->v.a[i] != n) { fprintf (stderr, "mc: divergence at choice %d (%s): arity %d, was %d\n", i, label, n, S->v.a[i]); _exit (3); }
        if (S->v.c[i] >= n) { fprintf (stderr, "mc: replay divergence at choice %d (%s): %d of %d\n", i, label, S->v.c[i], n); _exit (3); }
        S->v.a[i] = n;
    }
    else { S->v.c[i] = 0; S->v.a[i] = n; }
    S->v.n = i + 1;
    if (sharding && S->v.n == shard_depth && !mine (shard_depth)) throw Skip ();
    return S->v.c[i];
}

int Ctx::deviate (int n, int bound, const char *label)
{
    int r = choose (devs >= bound ? 1 : n, label);
    if (r) devs++;
    return r;
}

void Ctx::note (const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    int room = NOTE - S->note_len;
    if (room > 1)
    {
        int r = vsnprintf (S->note + S->note_len, room, fmt, ap);
        if (r > 0) S->note_len += r < room ? r : room - 1;
    }
    va_end (ap);
}
void Ctx::risk (const char *sig) { snprintf (S->sig, sizeof S->sig, "%s", sig); }
void Ctx::fail (const char *sig, const char *fmt, ...)
{
    char b[8192]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
    throw Fail { sig, b };
}
void Ctx::prune () { throw Prune (); }
void Ctx::state (const std::string &s) { st_states.insert (hs (s)); }
void Ctx::transition (const std::string &a, const std::string &b) { st_trans.insert (hs (b, hs (a))); st_states.insert (hs (a)); }
void Ctx::outcome (const std::string &s) { st_out.insert (hs (s)); }
void Ctx::nontrivial (const std::string &k) { st_nt.insert (hs (k)); }
void Ctx::validated (uint64_t n) { S->traces += n; }
bool Ctx::thorough () const { return g_thorough; }

static double now () { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static int rmcb (const char *p, const struct stat *, int, struct FTW *) { ::remove (p); return 0; }
static void rmtree (const char *p) { if (strstr (p, "/disirmc.")) nftw (p, rmcb, 32, FTW_DEPTH | FTW_PHYS); }

static void record (const std::string &sig, const std::string &msg, int crash)
{
    S->failed_total = S->failed_total + 1;
    int same = 0;
    for (int i = 0; i < S->nviol; i++)
        if (sig == S->viol[i].sig) { S->viol[i].count++; same++; }
    if (same || S->nviol >= MAXV) return;
    Violation &v = S->viol[S->nviol];
    v.v = S->v; v.count = 1; v.crash = crash;
    snprintf (v.sig, sizeof v.sig, "%s", sig.c_str ());
    snprintf (v.msg, sizeof v.msg, "%s\n--- trace ---\n%.*s", msg.c_str (), 3000, S->note);
    S->nviol++;
}

// advance the vector to the next one; false at the end
static bool advance ()
{
    while (S->v.n > 0)
    {
        int i = S->v.n - 1;
        if (S->v.c[i] + 1 < S->v.a[i]) { S->v.c[i]++; return true; }
        S->v.n--;
    }
    return false;
}

static int run_one (const Model &m, bool &counted)
{
    Ctx c; c.devs = 0;
    S->note_len = 0; S->note[0] = 0; S->sig[0] = 0;
    fixed_n = S->v.n; S->v.n = 0;
    counted = true;
    int rc = 0;
    S->attempts = S->attempts + 1;
    S->running = 1;
    try { m.run (c); }
    catch (Skip &) { counted = false; rc = 2; }
    catch (Prune &) { counted = false; rc = 3; }
    catch (Fail &f)
    {
        if (sharding && S->v.n < shard_depth && !mine (S->v.n)) { counted = false; }
        else { record (f.sig, f.msg, 0); rc = 1; }
        if (I.worker_reset) I.worker_reset (g_scratch);
    }
    S->running = 0;
    if (counted && sharding && S->v.n < shard_depth && !mine (S->v.n)) counted = false;
    return rc;
}

static void dump_set (const char *dir, const char *nm, int w, std::unordered_set<uint64_t> &s)
{
    std::string p = strf ("%s/%s.%d", dir, nm, w);
    FILE *f = fopen (p.c_str (), "ab");
    std::vector<uint64_t> v (s.begin (), s.end ());
    if (f) { fwrite (v.data (), 8, v.size (), f); fclose (f); }
}

static void worker (const Model &m, int w, int n, bool resume, double deadline, const char *rundir)
{
    prctl (PR_SET_PDEATHSIG, SIGKILL);
    shard_depth = m.shard_depth; shard_i = w; shard_n = n; sharding = n > 1;
    if (I.worker_init) I.worker_init (g_scratch);
    if (!resume) { S->v.n = 0; }
    uint64_t next_sample = 1;
    for (;;)
    {
        bool counted;
        int rc = run_one (m, counted);
        if (counted)
        {
            S->execs = S->execs + 1; S->choices = S->choices + S->v.n;
            if (S->execs == next_sample && S->nsamples < 8)
            {
                snprintf (S->samples[S->nsamples], sizeof S->samples[0], "[%s] %s", m.name, S->note);
                S->nsamples++; next_sample = next_sample * 7 + 3;
            }
        }
        if (rc == 2 && S->v.n > shard_depth) S->v.n = shard_depth;
        if (S->failed_total > 20000) { S->capped = 1; break; }
        if ((S->attempts & 15) == 0 && now () > deadline) { S->capped = 1; break; }
        if (!advance ()) break;
    }
    dump_set (rundir, "states", w, st_states); dump_set (rundir, "trans", w, st_trans);
    dump_set (rundir, "out", w, st_out); dump_set (rundir, "nt", w, st_nt);
    S->done = 1;
    fflush (stdout);
    _exit (0);
}

static std::vector<uint64_t> merge (const char *dir, const char *nm, int n)
{
    std::vector<uint64_t> all;
    for (int w = 0; w < n; w++)
    {
        std::string p = strf ("%s/%s.%d", dir, nm, w);
        FILE *f = fopen (p.c_str (), "rb");
        if (!f) continue;
        uint64_t b[4096]; size_t k;
        while ((k = fread (b, 8, 4096, f)) > 0) all.insert (all.end (), b, b + k);
        fclose (f); unlink (p.c_str ());
    }
    std::sort (all.begin (), all.end ());
    all.erase (std::unique (all.begin (), all.end ()), all.end ());
    return all;
}

static std::string tail (const char *p, size_t max)
{
    FILE *f = fopen (p, "rb"); if (!f) return "";
    std::string s; char b[4096]; size_t k;
    while ((k = fread (b, 1, sizeof b, f)) > 0) { s.append (b, k); if (s.size () > 400000) s.erase (0, 200000); }
    fclose (f);
    size_t e = s.find ("ERROR: AddressSanitizer");
    if (e != std::string::npos) s = s.substr (e);
    if (s.size () > max) s = s.substr (0, max);
    return s;
}

static std::string vec_str (const Vec &v)
{
    std::string s;
    for (int i = 0; i < v.n; i++) s += strf (i ? " %d" : "%d", v.c[i]);
    return s;
}

// Replay a vector in a fresh process. returns: 0 pass, 1 fail (sig set), 2 crash, 3 hang, 4 divergence
static int replay_fresh (const Model &m, const Vec &v, std::string &sig, std::string &msg, const char *rundir, int limit)
{
    Slot *old = S;
    Slot *s = (Slot *) mmap (0, sizeof (Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset ((void *) s, 0, sizeof *s);
    s->v = v;
    std::string err = strf ("%s/replay.err", rundir);
    std::string scr = strf ("%s/replay.scratch", rundir);
    mkdir (scr.c_str (), 0777); chmod (scr.c_str (), 0777);
    fflush (stdout);
    pid_t p = fork ();
    if (p == 0)
    {
        S = s; replaying = true; sharding = false;
        int fd = open (err.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2 (fd, 2); dup2 (fd, 1); close (fd);
        snprintf (g_scratch, sizeof g_scratch, "%s", scr.c_str ());
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        if (I.worker_init) I.worker_init (g_scratch);
        bool counted; int rc = run_one (m, counted);
        fflush (stdout);
        if (getenv ("MC_LSAN")) { int o = open (getenv ("MC_LSAN"), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2 (o, 2); __lsan_do_recoverable_leak_check (); }   // debugging aid
        _exit (rc == 1 ? 10 : 0);
    }
    int st = 0; double t0 = now (); bool hang = false;
    while (waitpid (p, &st, WNOHANG) == 0)
    {
        if (now () - t0 > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); hang = true; break; }
        usleep (2000);
    }
    int rc;
    if (hang) { rc = 3; sig = std::string ("hang:") + s->sig; msg = strf ("no answer within %d s\n--- trace ---\n%s", limit, s->note); }
    else if (WIFEXITED (st) && WEXITSTATUS (st) == 0) rc = 0;
    else if (WIFEXITED (st) && WEXITSTATUS (st) == 10) { rc = 1; sig = s->viol[0].sig; msg = s->viol[0].msg; }
    else if (WIFEXITED (st) && WEXITSTATUS (st) == 3) rc = 4;
    else { rc = 2; sig = std::string ("crash:") + s->sig; msg = strf ("process died (status 0x%x)\n--- trace ---\n%.3000s\n--- stderr ---\n", st, s->note) + tail (err.c_str (), 3500); }
    rmtree (scr.c_str ());
    munmap (s, sizeof *s);
    S = old;
    return rc;
}

// Re-run a shard from its beginning and report whether `v` fails again (for defects that depend on
// what the process did before)
static bool replay_shard (const Model &m, int w, int n, const Vec &target, std::string &sig, std::string &msg, const char *rundir, double limit)
{
    Slot *old = S;
    Slot *s = (Slot *) mmap (0, sizeof (Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset ((void *) s, 0, sizeof *s);
    std::string err = strf ("%s/replay.err", rundir), scr = strf ("%s/replay.scratch", rundir);
    mkdir (scr.c_str (), 0777); chmod (scr.c_str (), 0777);
    fflush (stdout);
    pid_t p = fork ();
    if (p == 0)
    {
        S = s; prctl (PR_SET_PDEATHSIG, SIGKILL);
        int fd = open (err.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2 (fd, 2); dup2 (fd, 1); close (fd);
        snprintf (g_scratch, sizeof g_scratch, "%s", scr.c_str ());
        shard_depth = m.shard_depth; shard_i = w; shard_n = n; sharding = n > 1;
        if (I.worker_init) I.worker_init (g_scratch);
        S->v.n = 0;
        for (;;)
        {
            bool counted; int rc = run_one (m, counted);
            if (rc == 2 && S->v.n > shard_depth) S->v.n = shard_depth;
            if (counted && S->v.n == target.n && memcmp (S->v.c, target.c, target.n * sizeof (uint16_t)) == 0)
                _exit (rc == 1 ? 10 : 0);
            if (!advance ()) _exit (0);
        }
    }
    int st = 0; double t0 = now (); bool hang = false;
    while (waitpid (p, &st, WNOHANG) == 0)
    {
        if (now () - t0 > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); hang = true; break; }
        usleep (2000);
    }
    bool same = s->v.n == target.n && memcmp (s->v.c, target.c, target.n * sizeof (uint16_t)) == 0;
    bool bad = false;
    if (!hang && same && WIFEXITED (st) && WEXITSTATUS (st) == 10) { bad = true; }
    else if (!hang && same && !(WIFEXITED (st) && WEXITSTATUS (st) == 0))
    { bad = true; sig = std::string ("crash:") + s->sig; msg = strf ("process died (status 0x%x), only after earlier executions of the shard\n--- trace ---\n%.3000s\n", st, s->note) + tail (err.c_str (), 3000); }
    rmtree (scr.c_str ()); munmap (s, sizeof *s); S = old;
    return bad;
}

struct Known { std::string sig, what; };
static std::vector<Known> load_known (const char *path, const char *prop)
{
    std::vector<Known> r; FILE *f = fopen (path, "r"); char line[4096];
    if (!f) return r;
    while (fgets (line, sizeof line, f))
    {
        char p[32], sg[300]; int off = 0;
        line[strcspn (line, "\n")] = 0;
        if (sscanf (line, "finding: property=%31s sig=%299s %n", p, sg, &off) >= 2 && strcmp (p, prop) == 0)
            r.push_back ({ sg, off ? line + off : "" });
    }
    fclose (f); return r;
}

extern "C" void mc_quiet_log ();
int main (int argc, char **argv, Info info, std::vector<Model> models)
{
    mc_quiet_log ();
    I = info;
    signal (SIGCHLD, SIG_DFL); signal (SIGPIPE, SIG_DFL);
    const char *verif = getenv ("VERIF_ROOT"); if (!verif) verif = "/verif";
    const char *tier = getenv ("VERIF_TIER"); if (!tier) tier = "quick";
    int seed = getenv ("VERIF_SEED") ? atoi (getenv ("VERIF_SEED")) : 1;
    int workers = getenv ("VERIF_WORKERS") ? atoi (getenv ("VERIF_WORKERS")) : (int) sysconf (_SC_NPROCESSORS_ONLN);
    double budget = 0; const char *replay = NULL, *only = NULL; bool verbose = false;
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp (argv[i], "--tier") && i + 1 < argc) tier = argv[++i];
        else if (!strcmp (argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        else if (!strcmp (argv[i], "--model") && i + 1 < argc) only = argv[++i];
        else if (!strcmp (argv[i], "--budget") && i + 1 < argc) budget = atof (argv[++i]);
        else if (!strcmp (argv[i], "--workers") && i + 1 < argc) workers = atoi (argv[++i]);
        else if (!strcmp (argv[i], "-v")) verbose = true;
    }
    g_thorough = !strcmp (tier, "thorough");
    if (workers < 1) workers = 1;
    if (workers > 16) workers = 16;
    if (budget <= 0) budget = g_thorough ? 3000 : 420;
    (void) cur_bound_unused; (void) cur_valid;

    char rundir[200];
    snprintf (rundir, sizeof rundir, "%s/disirmc.XXXXXX", access ("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    if (!mkdtemp (rundir)) { perror ("mkdtemp"); return 2; }
    chmod (rundir, 0777);

    if (replay)
    {
        FILE *f = fopen (replay, "r"); char line[16384]; std::string mn; Vec v; memset (&v, 0, sizeof v);
        if (!f) { perror (replay); return 2; }
        while (fgets (line, sizeof line, f))
        {
            line[strcspn (line, "\n")] = 0;
            if (!strncmp (line, "model: ", 7)) mn = line + 7;
            if (!strncmp (line, "tier: ", 6)) g_thorough = !strcmp (line + 6, "thorough");
            if (!strncmp (line, "choices:", 8))
                for (char *t = strtok (line + 8, " "); t; t = strtok (NULL, " ")) v.c[v.n++] = atoi (t);
        }
        fclose (f);
        for (auto &m : models)
            if (mn == m.name)
            {
                std::string sg, ms; int rc = replay_fresh (m, v, sg, ms, rundir, 120);
                printf ("replay: %s\nsig: %s\n%s\n", rc == 0 ? "PASSES" : rc == 1 ? "FAILS" : rc == 2 ? "CRASHES" : rc == 3 ? "HANGS" : "DIVERGES", sg.c_str (), ms.c_str ());
                rmtree (rundir);
                return rc ? 1 : 0;
            }
        fprintf (stderr, "no model %s\n", mn.c_str ()); rmtree (rundir); return 2;
    }

    double t0 = now ();
    double deadline = t0 + budget;
    Slot *slots = (Slot *) mmap (0, sizeof (Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t execs = 0, traces = 0, choices = 0, unrepro = 0; bool capped = false, error = false;
    std::vector<std::string> samples; std::vector<std::string> caps;
    std::string permodel;
    struct Found { std::string model, sig, msg; Vec v; uint64_t count; };
    std::vector<Found> found;
    uint64_t n_states = 0, n_trans = 0, n_out = 0, n_nt = 0;

    for (auto &m : models)
    {
        if (only && strcmp (only, m.name)) continue;
        if (m.thorough_only && !g_thorough) continue;
        double tm = now ();
        memset ((void *) slots, 0, sizeof (Slot) * workers);
        std::vector<pid_t> pid (workers); std::vector<uint64_t> last (workers, 0); std::vector<double> lastt (workers, now ());
        std::vector<int> crashes (workers, 0); std::vector<bool> alive (workers, false);
        struct Crash { int w; Vec v; std::string sig; bool hang; };
        std::vector<Crash> cr;
        auto launch = [&] (int w, bool resume) {
            fflush (stdout);
            pid_t p = fork ();
            if (p == 0)
            {
                S = &slots[w];
                std::string err = strf ("%s/w%d.err", rundir, w);
                int fd = open (err.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2 (fd, 2); dup2 (fd, 1); close (fd);
                snprintf (g_scratch, sizeof g_scratch, "%s/w%d", rundir, w);
                rmtree (g_scratch); mkdir (g_scratch, 0777); chmod (g_scratch, 0777);
                worker (m, w, workers, resume, deadline, rundir);
            }
            pid[w] = p; alive[w] = true; last[w] = slots[w].attempts; lastt[w] = now ();
        };
        for (int w = 0; w < workers; w++) launch (w, false);
        for (;;)
        {
            bool any = false;
            for (int w = 0; w < workers; w++)
            {
                if (!alive[w]) continue;
                any = true;
                int st = 0; pid_t r = waitpid (pid[w], &st, WNOHANG);
                bool hang = false;
                if (r == 0)
                {
                    if (slots[w].attempts != last[w]) { last[w] = slots[w].attempts; lastt[w] = now (); continue; }
                    else if (now () - lastt[w] > m.hang_seconds)
                    { kill (pid[w], SIGKILL); waitpid (pid[w], &st, 0); hang = true; }
                    else continue;
                }
                alive[w] = false;
                if (!hang && WIFEXITED (st) && WEXITSTATUS (st) == 0 && slots[w].done) continue;
                if (!hang && WIFEXITED (st) && WEXITSTATUS (st) == 3)
                { printf ("ERROR: harness error in model %s: %s\n", m.name, tail (strf ("%s/w%d.err", rundir, w).c_str (), 600).c_str ()); error = true; continue; }
                // crash: attribute
                Slot &s = slots[w];
                std::string sg = std::string (hang ? "hang:" : "crash:") + s.sig;
                bool dup = false;
                for (auto &c : cr) if (c.sig == sg) dup = true;
                if (!dup) cr.push_back ({ w, s.v, sg, hang });
                if (verbose) printf ("worker %d %s status 0x%x sig=%s\n%s\n", w, hang ? "hang" : "crash", st, s.sig, tail (strf ("%s/w%d.err", rundir, w).c_str (), 2000).c_str ());
                S = &s; bool more = advance ();
                if (++crashes[w] > 60) { capped = true; caps.push_back (strf ("%s: worker stopped after 60 crashes", m.name)); continue; }
                if (more && now () < deadline) launch (w, true);
                else if (more) capped = true;
            }
            if (!any) break;
            usleep (1000);
        }
        uint64_t ex = 0, at = 0;
        for (int w = 0; w < workers; w++)
        {
            Slot &s = slots[w];
            ex += s.execs; traces += s.traces; choices += s.choices; at += s.attempts;
            if (s.capped) { capped = true; caps.push_back (strf ("%s: shard %d/%d stopped early (time or failure cap)", m.name, w, workers)); }
            for (int i = 0; i < s.nsamples && i < 2; i++) if (samples.size () < 24) samples.push_back (s.samples[i]);
        }
        execs += ex;
        // confirm violations by replay
        for (int w = 0; w < workers; w++)
            for (int i = 0; i < slots[w].nviol; i++)
            {
                Violation &v = slots[w].viol[i];
                bool dup = false;
                for (auto &f : found) if (f.model == m.name && f.sig == v.sig) { f.count += v.count; dup = true; }
                if (dup) continue;
                std::string sg, ms; int rc = replay_fresh (m, v.v, sg, ms, rundir, 120);
                if (rc == 1 && sg == v.sig) found.push_back ({ m.name, sg, ms, v.v, v.count });
                else if (rc == 1 || rc == 2 || rc == 3) found.push_back ({ m.name, sg, ms, v.v, v.count });
                else
                {
                    sg = v.sig; ms = v.msg;
                    if (replay_shard (m, w, workers, v.v, sg, ms, rundir, 200))
                        found.push_back ({ m.name, sg, std::string ("(fails only after earlier executions in the same process)\n") + ms, v.v, v.count });
                    else { unrepro++; printf ("note: unreproducible failure ignored: %s %s\n", m.name, v.sig); }
                }
            }
        for (auto &c : cr)
        {
            std::string sg, ms; int rc = replay_fresh (m, c.v, sg, ms, rundir, c.hang ? 60 : 120);
            if (rc == 0 || rc == 4)
            {
                sg = c.sig;
                if (!c.hang && replay_shard (m, c.w, workers, c.v, sg, ms, rundir, 200))
                    found.push_back ({ m.name, sg, ms, c.v, 1 });
                else { unrepro++; printf ("note: unreproducible %s ignored: %s %s\n", c.hang ? "slow execution" : "crash", m.name, c.sig.c_str ()); }
            }
            else found.push_back ({ m.name, sg, ms, c.v, 1 });
        }
        auto a = merge (rundir, "states", workers), b = merge (rundir, "trans", workers), o = merge (rundir, "out", workers), nt = merge (rundir, "nt", workers);
        n_states += a.size (); n_trans += b.size (); n_out += o.size (); n_nt += nt.size ();
        permodel += strf ("%s{\"model\":%s,\"executions\":%llu,\"states\":%zu,\"transitions\":%zu,\"distinct_outcomes\":%zu,\"distinct_nontrivial\":%zu,\"wall_s\":%.2f}",
                          permodel.empty () ? "" : ",", quote (m.name).c_str (), (unsigned long long) ex, a.size (), b.size (), o.size (), nt.size (), now () - tm);
        printf ("[%s] %s: executions=%llu states=%zu transitions=%zu outcomes=%zu nontrivial=%zu %.1fs\n", I.property, m.name,
                (unsigned long long) ex, a.size (), b.size (), o.size (), nt.size (), now () - tm);
        fflush (stdout);
    }

    std::string kp = strf ("%s/known_findings.txt", verif);
    auto known = load_known (kp.c_str (), I.property);
    int nviol = 0; std::set<std::string> kn_seen;
    mkdir (strf ("%s/replays", verif).c_str (), 0777);
    for (auto &f : found)
    {
        bool k = false;
        for (auto &kf : known) if (kf.sig == f.sig) { k = true; kn_seen.insert (kf.sig); }
        if (k) { if (verbose) printf ("(known) %s %s: %s\n", f.model.c_str (), f.sig.c_str (), f.msg.c_str ()); continue; }
        nviol++;
        std::string rp = strf ("%s/replays/%s-%d.replay", verif, I.property, nviol);
        FILE *o = fopen (rp.c_str (), "w");
        if (o)
        {
            fprintf (o, "property: %s\nmodel: %s\ntier: %s\nsig: %s\nfailing-executions: %llu\nchoices: %s\n# replay: %s/check %s --replay %s\n%s\n",
                     I.property, f.model.c_str (), tier, f.sig.c_str (), (unsigned long long) f.count, vec_str (f.v).c_str (), verif, I.property, rp.c_str (), f.msg.c_str ());
            fclose (o);
        }
        if (nviol <= 8)
        {
            printf ("VIOLATION property=%s replay=%s\n", I.property, rp.c_str ());
            printf ("  model=%s sig=%s (%llu executions)\n  %.1800s\n", f.model.c_str (), f.sig.c_str (), (unsigned long long) f.count, f.msg.c_str ());
        }
    }
    for (auto &kf : known)
        if (kn_seen.count (kf.sig) || true)
            printf ("KNOWN-FINDING: property=%s %s%s\n", I.property, kf.what.c_str (), kn_seen.count (kf.sig) ? "" : " (not met in this run)");

    if (!only)
    {
        std::string ev = strf ("%s/evidence/%s.json", verif, I.property);
        mkdir (strf ("%s/evidence", verif).c_str (), 0777);
        FILE *o = fopen (ev.c_str (), "w");
        if (o)
        {
            fprintf (o, "{\"property\":%s,\"tier\":%s,\"seed\":%d,\"level\":%s,\n\"coverage\":{", quote (I.property).c_str (), quote (tier).c_str (), seed, quote (I.level).c_str ());
            if (!strcmp (I.level, "model_checking"))
                fprintf (o, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"executions\":%llu,",
                         (unsigned long long) n_states, (unsigned long long) n_trans, (unsigned long long) traces, (unsigned long long) execs);
            else
                fprintf (o, "\"evaluations\":%llu,\"distinct_nontrivial\":%llu,", (unsigned long long) execs, (unsigned long long) n_nt);
            fprintf (o, "\"rule\":%s,\"distinct_outcomes\":%llu,\"choices_made\":%llu,\"exhaustive\":%s,\"unreproduced\":%llu,\n\"models\":[%s],\n\"caps\":[",
                     quote (I.rule).c_str (), (unsigned long long) n_out, (unsigned long long) choices, capped ? "false" : "true", (unsigned long long) unrepro, permodel.c_str ());
            for (size_t i = 0; i < caps.size () && i < 20; i++) fprintf (o, "%s%s", i ? "," : "", quote (caps[i]).c_str ());
            fprintf (o, "],\n\"samples\":[");
            for (size_t i = 0; i < samples.size () && i < 16; i++) fprintf (o, "%s%s", i ? ",\n" : "", quote (samples[i]).c_str ());
            fprintf (o, "]},\n\"assumptions\":[");
            for (size_t i = 0; i < I.assumptions.size (); i++) fprintf (o, "%s%s", i ? "," : "", quote (I.assumptions[i]).c_str ());
            fprintf (o, "],\"wall_s\":%.2f,\"violations\":%d}\n", now () - t0, nviol);
            fclose (o);
        }
    }
    rmtree (rundir);
    printf ("[%s] tier=%s executions=%llu violations=%d known=%zu exhaustive=%s wall=%.1fs\n", I.property, tier,
            (unsigned long long) execs, nviol, kn_seen.size (), capped ? "no" : "yes", now () - t0);
    if (nviol) return 1;
    return error ? 2 : 0;
}
}
