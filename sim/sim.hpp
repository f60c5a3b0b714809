// Simulator core: every source of nondeterminism of the code under test (memory contents and
// allocation failures, file system, clocks, random numbers, process death) is decided here, from
// two recorded streams of choices.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ choices
enum Stream { GEN = 0, ENV = 1, NSTREAM = 2 };
uint64_t draw(Stream s, uint64_t n);                       // uniform in [0,n); 0 is the simplest
inline uint64_t gen(uint64_t n) { return draw(GEN, n); }
inline uint64_t env(uint64_t n) { return draw(ENV, n); }
// true with probability num/den; the benign/simple answer false is choice 0
inline bool flip(Stream s, unsigned num, unsigned den) { return draw(s, den) >= den - num; }
inline int range(Stream s, int lo, int hi) { return lo + (int)draw(s, (uint64_t)(hi - lo + 1)); }

// ------------------------------------------------------------------ shared with the supervisor
enum Outcome { O_NONE = 0, O_OK, O_VIOLATION, O_SKIP, O_HARNESS };
struct Counter { char name[40]; uint64_t n; };
const int MAXC = 96, MAXTRACE = 800000, MAXSTATES = 4096, MAXEV = 1 << 20;
struct Shared {
  volatile int outcome;
  char cls[96];
  char msg[6000];
  char sample[4000];
  int nontrivial;
  uint64_t hash;            // event log hash (every seam crossing and its result)
  uint64_t schedule;        // hash of the environment decisions that differed from the benign default
  uint64_t simns;           // simulated time covered
  uint64_t events;
  Counter faults[MAXC]; int nfaults;
  Counter probes[MAXC]; int nprobes;
  uint64_t pos[NSTREAM], prng[NSTREAM];   // shared with forked simulated processes
  uint32_t ntrace[NSTREAM];
  uint32_t trace[NSTREAM][MAXTRACE];
  uint32_t nstates; uint64_t states[MAXSTATES];
  uint32_t nev; char evlog[MAXEV];     // textual event trace (only when replaying with --trace)
};
extern Shared *S;
void fault(const char *name);          // count a fault/perturbation that actually fired
void probe(const char *name);          // count a rare condition reached
void state(uint64_t h);                // a state reached (for the distinct-states measure)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // event log line
void hashmix(uint64_t v);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ends the run
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void skip(const std::string &why);
[[noreturn]] void harness_error(const std::string &msg);
void sample(const std::string &s);
void nontrivial();
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ running the code under test
struct SutScope { bool prev; SutScope(); ~SutScope(); };    // code under test runs inside
struct SimScope { bool prev; SimScope(); ~SimScope(); };    // simulator/harness code called from it
struct Result {
  enum Kind { RETURNED, EXCEPTION, EXITED, TERMINATED, SIGNALLED, DIED, HUNG } kind;
  int code;                 // exit code / signal
  std::string what;
  bool ok() const { return kind == RETURNED; }
  std::string str() const;
};
Result run_sut(const std::function<void()> &f);            // in this process
// run f in a forked copy of this process (fresh static state); returns its blob
std::string in_process(const std::function<std::string()> &f);

// ------------------------------------------------------------------ environment
enum Kinds {
  E_CHUNK = 1,     // short reads and writes, interrupted calls
  E_MEM = 2,       // contents of fresh memory, reuse policy
  E_TIME = 4,      // latency of calls, wall clock steps
  E_RAND = 8,      // random numbers vary (always do)
};
void env_benign(unsigned kinds);   // draw a benign environment of these kinds for the rest of the run

enum Op { OP_OPEN = 0, OP_READ, OP_WRITE, OP_CLOSE, OP_ANY };
enum Act { A_FAIL = 0, A_DIE = 1 };
struct FaultSpec {
  int op; std::string path;        // path "" = any
  long k; bool sticky; int err; int act;
  long seen = 0; bool fired = false;
};
void add_fault(const FaultSpec &f);
void clear_faults();
void disk_capacity(int64_t bytes);   // total bytes the disk accepts; -1 unlimited
void fail_alloc(int64_t nth, bool sticky);   // fail the nth allocation from now (1-based); 0 = off
uint64_t allocs_so_far();
std::vector<uint64_t> alloc_marks(uint64_t since);   // allocation counts at which the run turned to another file or operation
uint64_t faults_fired();           // number of injected failures (not benign perturbations) that fired
uint64_t alloc_faults_fired();

// file system
void fs_reset();
void fs_put(const std::string &path, const std::string &data);
void fs_mkdir(const std::string &path);
bool fs_exists(const std::string &path);
std::string fs_get(const std::string &path);
void fs_remove(const std::string &path);
const std::vector<std::string> &fs_history(const std::string &path);   // contents at each close/rename
std::vector<std::string> fs_list();
std::vector<std::string> fs_reads();       // contents delivered, diagnostics
int fs_open_count();

// clock
void clock_advance(int64_t ns);
void clock_step_wall(int64_t ns);      // step the wall clock only
int64_t mono_now();
// called at every clock read by the code under test (n-th read); used to step the wall clock
std::string captured_stdout();
void clear_stdout();

// ------------------------------------------------------------------ the process
struct CheckDef { const char *name; void (*fn)(); };
extern const CheckDef CHECKS[];
extern std::string g_tier;
}  // namespace sim
