// Small exhaustive explorer: a harness is a function of nondeterministic choices; the explorer
// enumerates every choice sequence (depth first), sharded over forked workers, so that a crash or
// a hang of the code under test is attributed to the exact choice sequence that caused it.
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

struct Fail { std::string sig, msg; };
struct Skip {};      // this execution belongs to another shard
struct Prune {};     // execution is redundant / infeasible: not counted

struct Ctx
{
    // Nondeterministic choice in [0,n)
    int choose (int n, const char *label = "");
    // Choice whose non-zero answers are "deviations": at most `bound` per execution
    int deviate (int n, int bound, const char *label = "");
    // Append to the human readable trace of this execution
    void note (const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
    // Signature prefix used if the process dies from here on
    void risk (const char *sig);
    // Report a violation (throws)
    [[noreturn]] void fail (const char *sig, const char *fmt, ...) __attribute__ ((format (printf, 3, 4)));
    [[noreturn]] void prune ();
    // Coverage: distinct model states / transitions / observed outcomes
    void state (const std::string &s);
    void transition (const std::string &state, const std::string &op);
    void outcome (const std::string &s);
    // Mark the execution non-trivial (rule given in the harness); key dedups
    void nontrivial (const std::string &key);
    void validated (uint64_t n = 1);   // a model trace has been compared against the implementation
    bool thorough () const;
    int devs;                          // deviations so far
};

struct Model
{
    const char *name;
    int shard_depth;
    std::function<void (Ctx &)> run;
    bool thorough_only;
    int hang_seconds;                 // an execution taking longer is a hang (re-run alone first)
    Model (const char *n, int d, std::function<void (Ctx &)> r, bool t = false, int h = 20)
        : name (n), shard_depth (d), run (r), thorough_only (t), hang_seconds (h) {}
};

struct Info
{
    const char *property;
    const char *level;        // model_checking | exploration | fault_enumeration
    const char *rule;
    std::vector<const char *> assumptions;
    std::function<void (const char *scratch)> worker_init;  // called in each worker (and replay)
    std::function<void (const char *scratch)> worker_reset; // called after an execution failed
};

int main (int argc, char **argv, Info info, std::vector<Model> models);

// heap bytes currently allocated (address sanitizer's count)
size_t heap ();
// scratch directory of this worker (created by the explorer, removed afterwards)
const char *scratch ();
uint64_t hash (const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
std::string strf (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
std::string quote (const std::string &s);
}
#define MC_CHECK(c, cond, sig, ...) do { if (!(cond)) (c).fail (sig, __VA_ARGS__); } while (0)
#endif
