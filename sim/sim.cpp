#include "sim.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <exception>
#include <iostream>
#include <new>
#include <random>
#include <set>
#include <streambuf>

namespace sim {
Shared *S = nullptr;
std::string g_tier = "quick";
static bool g_active = false;     // inside a simulated run (child process)
static bool g_sut = false;        // code under test is executing
static bool g_replay = false;
static bool g_trace = false;
static std::vector<uint32_t> *g_list[NSTREAM];
static uint64_t g_prng0[NSTREAM];
static ucontext_t g_main_ctx, g_run_ctx;
static const CheckDef *g_check = nullptr;

SutScope::SutScope() : prev(g_sut) { g_sut = true; }
SutScope::~SutScope() { g_sut = prev; }
SimScope::SimScope() : prev(g_sut) { g_sut = false; }
SimScope::~SimScope() { g_sut = prev; }

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
void hashmix(uint64_t v) { S->hash = fnv(&v, 8, S->hash); }
static void sched(uint64_t v) { S->schedule = fnv(&v, 8, S->schedule); }

std::string strf(const char *fmt, ...) {
  char buf[8192];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void note(const char *fmt, ...) {
  char buf[1024];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  S->hash = fnv(buf, n, S->hash);
  if (g_trace && S->nev + n + 2 < (uint32_t)MAXEV) {
    memcpy(S->evlog + S->nev, buf, n);
    S->nev += n;
    S->evlog[S->nev++] = '\n';
  }
}
static void count(Counter *t, int &n, const char *name, uint64_t by = 1) {
  for (int i = 0; i < n; i++)
    if (!strcmp(t[i].name, name)) { t[i].n += by; return; }
  if (n < MAXC) { strncpy(t[n].name, name, 39); t[n].n = by; n++; }
}
void fault(const char *name) { count(S->faults, S->nfaults, name); }
void probe(const char *name) { count(S->probes, S->nprobes, name); }
void state(uint64_t h) { if (S->nstates < (uint32_t)MAXSTATES) S->states[S->nstates++] = h; }
void sample(const std::string &s) {
  size_t n = std::min(s.size(), sizeof(S->sample) - 1);
  memcpy(S->sample, s.data(), n); S->sample[n] = 0;
}
void nontrivial() { S->nontrivial = 1; }

static bool g_armed = false;
[[noreturn]] static void hang(const char *why);
uint64_t draw(Stream s, uint64_t n) {
  SimScope sc;
  if (n <= 1) return 0;
  uint64_t v;
  if (g_replay) {
    v = S->pos[s] < g_list[s]->size() ? (*g_list[s])[S->pos[s]] % n : 0;
    S->pos[s]++;
  } else {
    v = splitmix(S->prng[s]) % n;
  }
  if (S->ntrace[s] < (uint32_t)MAXTRACE) S->trace[s][S->ntrace[s]++] = (uint32_t)v;
  else if (g_armed && s != GEN) hang("more choices than any run needs");     // the code under test does not come to an end
  else harness_error("choice trace overflow");
  if (s == GEN) hashmix(v);     // two runs are the same run only if their workloads are
  return v;
}

static void finish(Outcome o, const std::string &cls, const std::string &msg) {
  g_sut = false;
  strncpy(S->cls, cls.c_str(), sizeof(S->cls) - 1);
  strncpy(S->msg, msg.c_str(), sizeof(S->msg) - 1);
  S->outcome = o;
  _exit(0);
}
void violation(const std::string &cls, const std::string &msg) { finish(O_VIOLATION, cls, msg); _exit(0); }
void skip(const std::string &why) { finish(O_SKIP, why, ""); _exit(0); }
void harness_error(const std::string &msg) { finish(O_HARNESS, "harness", msg); _exit(0); }

// ------------------------------------------------------------------ control transfer out of the code under test
static sigjmp_buf g_jmp;
static char g_whybuf[256];
enum { J_SIG = 1000, J_TERM = 2000, J_HANG = 3000, J_EXIT = 4000, J_DIE = 5000 };
[[noreturn]] static void leave(int code) {
  g_sut = false;
  if (!g_armed) finish(O_HARNESS, "harness", strf("left code under test with no frame, code %d", code));
  siglongjmp(g_jmp, code);
}
static void on_signal(int sig) {
  if (sig == SIGVTALRM) {
    if (g_sut && g_armed) { strcpy(g_whybuf, "cpu time limit"); leave(J_HANG); }
    if (g_armed && !g_sut) finish(O_HARNESS, "harness", "cpu limit inside the simulator");
    finish(O_HARNESS, "harness", "cpu limit in harness");
  }
  if (g_sut && g_armed) leave(J_SIG + sig);
  finish(O_HARNESS, "harness", strf("signal %d in the harness", sig));
}
static void on_terminate() {
  if (g_sut && g_armed) leave(J_TERM);
  finish(O_HARNESS, "harness", "terminate in the harness");
}
[[noreturn]] static void hang(const char *why) { strncpy(g_whybuf, why, 200); leave(J_HANG); }

static void event() {
  S->events++;
  if (S->events > 3000000 && g_sut == false && g_armed) hang("event limit");
}

std::string Result::str() const {
  static const char *k[] = {"returned", "threw", "exited", "terminated", "killed by signal", "process died", "did not terminate"};
  return std::string(k[kind]) + (kind == EXITED || kind == SIGNALLED ? " " + std::to_string(code) : "") + (what.size() ? ": " + what : "");
}

// ------------------------------------------------------------------ memory
static char *const ARENA = (char *)0x100000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static size_t g_bump = 0;
static int g_fill = 0;             // pattern of fresh memory
static int g_reuse = 0;
static uint64_t g_fillseed = 1;
static int64_t g_alloc_countdown = 0;
static bool g_alloc_sticky = false;
static uint64_t g_allocs = 0, g_alloc_fired = 0;
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
static void *g_free[64 + 40];

static void pattern(void *p, size_t n) {
  switch (g_fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: { // arbitrary bytes
      uint64_t x = g_fillseed;
      char *c = (char *)p;
      for (size_t i = 0; i < n; i += 8) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        memcpy(c + i, &x, std::min<size_t>(8, n - i));
      }
      g_fillseed = x;
      break;
    }
    case 3: { // small integers
      uint32_t *c = (uint32_t *)p;
      for (size_t i = 0; i + 4 <= n; i += 4) { g_fillseed = g_fillseed * 6364136223846793005ull + 1442695040888963407ull; c[i / 4] = (g_fillseed >> 60) & 7; }
      break;
    }
    case 4: { // ordinary doubles
      double *c = (double *)p;
      for (size_t i = 0; i + 8 <= n; i += 8) { g_fillseed = g_fillseed * 6364136223846793005ull + 1442695040888963407ull; c[i / 8] = (double)((g_fillseed >> 58) & 31) * 0.25; }
      break;
    }
    case 5: memset(p, 0xa5, n); break;
    case 6: { // pointers into the arena
      uint64_t *c = (uint64_t *)p;
      for (size_t i = 0; i + 8 <= n; i += 8) c[i / 8] = (uint64_t)(ARENA + 65536);
      break;
    }
  }
}
// electric fence: each block ends at an inaccessible page and stays inaccessible once freed
static char *const GARENA = (char *)0x300000000000ull;
static const size_t GARENA_SIZE = 1ull << 33;
static const int GMAX = 24000;
static bool g_fence = false;
static size_t g_gbump = 0;
static int g_gcount = 0;
static bool in_fence(void *p) { return (char *)p >= GARENA && (char *)p < GARENA + GARENA_SIZE; }
static void pattern(void *p, size_t n);
static void *fence_alloc(size_t n) {
  size_t r = (n + 15) / 16 * 16; if (!r) r = 16;
  size_t bytes = (r + 32 + 4095) / 4096 * 4096;
  if (g_gcount >= GMAX || n > (1u << 20) || g_gbump + bytes + 4096 > GARENA_SIZE) return nullptr;
  char *b = GARENA + g_gbump;
  if (mprotect(b, bytes, PROT_READ | PROT_WRITE)) { g_gcount = GMAX; return nullptr; }
  g_gcount++;
  g_gbump += bytes + 4096;
  *(size_t *)b = bytes;
  char *p = b + bytes - r;
  if (g_fill) pattern(p, r);
  return p;
}
static void fence_free(void *p) {
  // the header is at the start of the block's first page: for large blocks walk back to it
  char *b = (char *)((uintptr_t)p / 4096 * 4096);
  if ((char *)p - b < 32) b -= 4096;
  size_t bytes = *(size_t *)b;      // faults when the block was freed before
  mprotect(b, bytes, PROT_NONE);
}
static int size_class(size_t n, size_t &cap) {
  if (n <= 1024) { int c = (int)((n + 15) / 16); if (c == 0) c = 1; cap = (size_t)c * 16; return c - 1; }
  int c = 64; cap = 2048;
  while (cap < n) { cap <<= 1; c++; }
  return c;
}
static void *arena_alloc(size_t n) {
  g_allocs++;
  if (g_alloc_countdown > 0 && --g_alloc_countdown == 0) {
    if (g_alloc_sticky) g_alloc_countdown = 1;
    g_alloc_fired++;
    { SimScope s; fault("alloc_fail"); note("alloc %zu fails", n); sched(0xa110c + n); }
    throw std::bad_alloc();
  }
  if (n > ARENA_SIZE / 2) throw std::bad_alloc();
  if (g_fence) { if (void *q = fence_alloc(n)) return q; }
  size_t cap;
  int c = size_class(n, cap);
  char *p;
  if (g_reuse && g_free[c]) {
    p = (char *)g_free[c];
    memcpy(&g_free[c], p, 8);
  } else {
    size_t tot = sizeof(Hdr) + cap + 16;
    if (g_bump + tot > ARENA_SIZE) { g_sut = false; hang("memory exhausted"); }
    if (g_bump > ARENA_SIZE / 3) g_reuse = 1;
    p = ARENA + g_bump + sizeof(Hdr);
    g_bump += tot;
  }
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->size = n; h->cls = c; h->magic = 0x5117a110;
  if (g_fill != 0 || g_reuse) {
    if (g_reuse == 2) { /* stale contents stay */ }
    else pattern(p, cap + 16);
  }
  return p;
}
static bool in_arena(void *p) { return ((char *)p >= ARENA && (char *)p < ARENA + ARENA_SIZE) || in_fence(p); }
static void arena_free(void *p) {
  if (in_fence(p)) { fence_free(p); return; }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != 0x5117a110) {
    // double free or corrupted block: as the C library would, abort
    if (g_sut && g_armed) leave(J_SIG + SIGABRT);
    return;
  }
  h->magic = 0xdead;
  if (!g_reuse) { size_t cap; size_class(h->size, cap); pattern(p, cap); return; }
  memcpy(p, &g_free[h->cls], 8);
  g_free[h->cls] = p;
}

// ------------------------------------------------------------------ file system
struct Inode { std::string data; bool dir = false; };
struct OpenFile {
  std::string path; std::shared_ptr<Inode> ino; uint64_t pos = 0;
  bool rd = false, wr = false, app = false; uint64_t wrote = 0; int fd = -1; FILE *fp = nullptr;
  std::string before; bool dirty = false;
};
struct FS {
  std::map<std::string, std::shared_ptr<Inode>> files;
  std::map<std::string, std::vector<std::string>> hist;
  std::map<int, OpenFile *> fds;
  std::map<FILE *, OpenFile *> fps;
  int nextfd = 1000;
  int64_t capacity = -1;
  std::vector<FaultSpec> faults;
  uint64_t fired = 0;
  int64_t used() { int64_t t = 0; for (auto &f : files) t += f.second->data.size(); return t; }
};
static FS *g_fs = nullptr;
static std::vector<std::string> g_nohist;
static long g_shorts = 0;             // a big file is transferred in bigger pieces after many small ones
static int g_rdmode = 0, g_wrmode = 0, g_eintr = 0, g_latency = 0, g_wallmode = 0;
static int g_fixchunk = 1, g_randmode = 0;

static int64_t g_mono = 1000000000ll, g_wall = 1700000000ll * 1000000000ll, g_cpu = 0;
void clock_advance(int64_t ns) { g_mono += ns; g_wall += ns; S->simns += ns; }
void clock_step_wall(int64_t ns) { g_wall += ns; if (ns < 0) fault("clock_step_back"); else fault("clock_step_forward"); sched(ns); note("wall clock steps %lld", (long long)ns); }
int64_t mono_now() { return g_mono; }

static void tick() {
  // time passes at every seam crossing
  int64_t d = 1000;
  if (g_latency == 1) { if (flip(ENV, 1, 8)) { d = 1000 + (int64_t)env(2000000000); fault("slow_io"); sched(d); } }
  else if (g_latency == 2) d = 1000 + (int64_t)env(50000);
  clock_advance(d);
  g_cpu += 1000;
}
static void wall_maybe() {
  if (g_wallmode && flip(ENV, 1, 4)) {
    int64_t mag[] = {1, 1000000, 1000000000ll, 3600ll * 1000000000, 86400ll * 365 * 1000000000};
    int64_t m = mag[env(5)] * (1 + (int64_t)env(9));
    clock_step_wall(g_wallmode == 1 ? -m : (flip(ENV, 1, 2) ? m : -m));
  }
}

static std::string norm(const char *p) {
  std::string s(p), out;
  std::vector<std::string> parts;
  bool abs = s.size() && s[0] == '/';
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") { if (parts.size()) parts.pop_back(); }
    else if (c.size() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  for (auto &c : parts) { if (out.size() || abs) out += "/"; out += c; }
  return out.size() ? out : (abs ? "/" : ".");
}
static bool parent_ok(const std::string &p) {
  size_t k = p.rfind('/');
  if (k == std::string::npos || k == 0) return true;
  auto it = g_fs->files.find(p.substr(0, k));
  return it != g_fs->files.end() && it->second->dir;
}
void fs_reset() {
  SimScope s; g_fs = new FS;
}
void fs_put(const std::string &p, const std::string &d) { auto n = std::make_shared<Inode>(); n->data = d; g_fs->files[norm(p.c_str())] = n; }
void fs_mkdir(const std::string &p) { auto n = std::make_shared<Inode>(); n->dir = true; g_fs->files[norm(p.c_str())] = n; }
bool fs_exists(const std::string &p) { return g_fs->files.count(norm(p.c_str())) > 0; }
std::string fs_get(const std::string &p) { auto i = g_fs->files.find(norm(p.c_str())); return i == g_fs->files.end() ? std::string() : i->second->data; }
void fs_remove(const std::string &p) { g_fs->files.erase(norm(p.c_str())); }
const std::vector<std::string> &fs_history(const std::string &p) { return g_fs->hist[norm(p.c_str())]; }
std::vector<std::string> fs_list() { std::vector<std::string> r; for (auto &f : g_fs->files) r.push_back(f.first); return r; }
int fs_open_count() { return (int)g_fs->fds.size(); }
void add_fault(const FaultSpec &f) { g_fs->faults.push_back(f); }
void clear_faults() { g_fs->faults.clear(); g_fs->capacity = -1; g_alloc_countdown = 0; }
void disk_capacity(int64_t b) { g_fs->capacity = b; }
void fail_alloc(int64_t n, bool sticky) { g_alloc_countdown = n; g_alloc_sticky = sticky; }
uint64_t allocs_so_far() { return g_allocs; }
uint64_t faults_fired() { return g_fs->fired + g_alloc_fired; }
uint64_t alloc_faults_fired() { return g_alloc_fired; }

static const char *opname[] = {"open", "read", "write", "close", "any"};
// how many allocations had been made whenever another file was worked on, or in another way
static uint64_t g_marks[256], g_mark_last; static int g_nmarks;
std::vector<uint64_t> alloc_marks(uint64_t since) {
  std::vector<uint64_t> r;
  for (int i = 0; i < g_nmarks; i++) if (g_marks[i] > since) r.push_back(g_marks[i] - since);
  return r;
}
// returns the spec that fires for this operation, if any
static FaultSpec *hit(int op, const std::string &path) {
  uint64_t mk = fnv(path) * 8 + op;
  if (mk != g_mark_last) { g_mark_last = mk; if (g_nmarks < 256 && (!g_nmarks || g_marks[g_nmarks - 1] != g_allocs)) g_marks[g_nmarks++] = g_allocs; }
  FaultSpec *r = nullptr;
  for (auto &f : g_fs->faults) {
    if (f.op != OP_ANY && f.op != op) continue;
    if (f.path.size() && f.path != path) continue;
    long n = f.seen++;
    if (n == f.k || (f.sticky && n > f.k)) {
      if (!r) r = &f;
      f.fired = true;
    }
  }
  if (r) {
    g_fs->fired++;
    char nm[40];
    snprintf(nm, sizeof nm, "%s_%s", opname[op], r->act == A_DIE ? "crash" : r->err == ENOSPC ? "enospc" : r->err == EIO ? "eio" : r->err == EACCES ? "eacces" : r->err == EMFILE ? "emfile" : "err");
    fault(nm);
    sched(0xf0000 + op * 16 + r->act + fnv(path));
    note("fault %s on %s", nm, path.c_str());
  }
  return r;
}
static void die(const char *where) { note("process dies in %s", where); leave(J_DIE); }

static void snapshot(OpenFile *o) {
  if (!o->wr || !o->dirty) return;
  auto &h = g_fs->hist[o->path];
  if (h.size() < 4096) h.push_back(o->ino->data);
}
static OpenFile *do_open(const char *cpath, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
  event(); tick();
  std::string path = norm(cpath);
  if (FaultSpec *f = hit(OP_OPEN, path)) {
    if (f->act == A_DIE) die("open");
    errno = f->err; return nullptr;
  }
  auto it = g_fs->files.find(path);
  if (it == g_fs->files.end()) {
    if (!creat || !parent_ok(path)) { note("open %s -> ENOENT", path.c_str()); errno = ENOENT; return nullptr; }
    if (g_fs->capacity == 0) { g_fs->fired++; fault("disk_full"); errno = ENOSPC; return nullptr; }
    g_fs->files[path] = std::make_shared<Inode>();
    it = g_fs->files.find(path);
  } else if (excl && creat) { errno = EEXIST; return nullptr; }
  if (it->second->dir) { errno = EISDIR; return nullptr; }
  OpenFile *o = new OpenFile;
  o->path = path; o->ino = it->second; o->rd = rd; o->wr = wr; o->app = app;
  if (trunc) { o->ino->data.clear(); o->dirty = true; }
  o->fd = g_fs->nextfd++;
  g_fs->fds[o->fd] = o;
  note("open %s %s%s%s%s -> %d", path.c_str(), rd ? "r" : "", wr ? "w" : "", trunc ? "t" : "", app ? "a" : "", o->fd);
  if (wr) o->dirty = true;
  return o;
}
static ssize_t do_read(OpenFile *o, void *buf, size_t n, bool stdio) {
  event(); tick();
  if (!o->rd) { errno = EBADF; return -1; }
  if (FaultSpec *f = hit(OP_READ, o->path)) {
    if (f->act == A_DIE) die("read");
    errno = f->err; return -1;
  }
  if (g_eintr && !stdio && flip(ENV, 1, 6)) { fault("eintr_read"); sched(0xe1); note("read EINTR"); errno = EINTR; return -1; }
  size_t avail = o->pos < o->ino->data.size() ? o->ino->data.size() - o->pos : 0;
  size_t k = std::min(n, avail);
  if (k > 1 && g_rdmode) {
    size_t w = k;
    if (g_rdmode == 1) w = flip(ENV, 1, 2) ? 1 + env(k) : k;
    else if (g_rdmode == 2) w = std::min<size_t>(k, g_fixchunk);
    else if (g_rdmode == 3) w = 1 + env(std::min<size_t>(k, 7));
    if (g_shorts > 8000 && w < 512) w = std::min<size_t>(k, w * 512);
    if (w < k) { g_shorts++; fault("short_read"); sched(0x5e00000 + w); k = w; }
  }
  memcpy(buf, o->ino->data.data() + o->pos, k);
  o->pos += k;
  note("read %s %zu -> %zu", o->path.c_str(), n, k);
  return (ssize_t)k;
}
static ssize_t do_write(OpenFile *o, const void *buf, size_t n, bool stdio) {
  event(); tick();
  if (!o->wr) { errno = EBADF; return -1; }
  if (FaultSpec *f = hit(OP_WRITE, o->path)) {
    if (f->act == A_DIE) {
      size_t k = env(n + 1);
      uint64_t at = o->app ? o->ino->data.size() : o->pos;
      if (o->ino->data.size() < at + k) o->ino->data.resize(at + k);
      memcpy(&o->ino->data[at], buf, k);
      snapshot(o);
      note("partial write %zu of %zu", k, n);
      die("write");
    }
    errno = f->err; return -1;
  }
  if (g_eintr && !stdio && flip(ENV, 1, 6)) { fault("eintr_write"); sched(0xe2); note("write EINTR"); errno = EINTR; return -1; }
  size_t k = n;
  if (k > 1 && g_wrmode) {
    size_t w = k;
    if (g_wrmode == 1) w = flip(ENV, 1, 2) ? 1 + env(k) : k;
    else if (g_wrmode == 2) w = std::min<size_t>(k, g_fixchunk);
    else if (g_wrmode == 3) w = 1 + env(std::min<size_t>(k, 7));
    if (g_shorts > 8000 && w < 512) w = std::min<size_t>(k, w * 512);
    if (w < k) { g_shorts++; fault("short_write"); sched(0x5f00000 + w); k = w; }
  }
  uint64_t at = o->app ? o->ino->data.size() : o->pos;
  if (g_fs->capacity >= 0) {
    int64_t grow = (int64_t)(at + k) - (int64_t)o->ino->data.size();
    int64_t room = g_fs->capacity - g_fs->used();
    if (grow > 0 && grow > room) {
      g_fs->fired++; fault("disk_full"); sched(0xf01);
      int64_t ok = (int64_t)k - (grow - std::max<int64_t>(room, 0));
      if (ok <= 0) { note("write %s ENOSPC", o->path.c_str()); errno = ENOSPC; return -1; }
      k = (size_t)ok;
    }
  }
  if (o->ino->data.size() < at + k) o->ino->data.resize(at + k);
  memcpy(&o->ino->data[at], buf, k);
  o->pos = at + k;
  o->wrote += k; o->dirty = true;
  note("write %s %zu -> %zu", o->path.c_str(), n, k);
  hashmix(fnv(buf, k));
  return (ssize_t)k;
}
static int do_close(OpenFile *o) {
  event(); tick();
  int r = 0;
  FaultSpec *f = hit(OP_CLOSE, o->path);
  if (f && f->act == A_DIE) { snapshot(o); g_fs->fds.erase(o->fd); die("close"); }
  if (f) {
    // a failing close may mean that buffered data never reached the device
    if (o->wr && o->wrote) {
      uint64_t lose = env(std::min<uint64_t>(o->wrote, o->ino->data.size()) + 1);
      if (lose) { fault("lost_on_close"); o->ino->data.resize(o->ino->data.size() - lose); note("close loses %llu bytes", (unsigned long long)lose); }
    }
    errno = f->err; r = -1;
  }
  snapshot(o);
  g_fs->fds.erase(o->fd);
  if (o->fp) g_fs->fps.erase(o->fp);
  note("close %s -> %d", o->path.c_str(), r);
  delete o;
  return r;
}
static off64_t do_seek(OpenFile *o, off64_t off, int wh) {
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o->pos : (off64_t)o->ino->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  o->pos = b + off;
  return o->pos;
}
static ssize_t ck_read(void *c, char *b, size_t n) { SimScope s; return do_read((OpenFile *)c, b, n, true); }
// like glibc's own write function for files: short writes are continued, only an error ends early
static ssize_t ck_write(void *c, const char *b, size_t n) {
  SimScope s;
  size_t k = 0;
  while (k < n) { ssize_t r = do_write((OpenFile *)c, b + k, n - k, true); if (r <= 0) break; k += (size_t)r; }
  return (ssize_t)k;
}
static int ck_seek(void *c, off64_t *o, int wh) { SimScope s; off64_t r = do_seek((OpenFile *)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { SimScope s; return do_close((OpenFile *)c); }

static FILE *sim_fopen(const char *path, const char *mode) {
  bool rd = false, wr = false, cr = false, tr = false, ap = false;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': rd = true; wr = plus; break;
    case 'w': wr = cr = tr = true; rd = plus; break;
    case 'a': wr = cr = ap = true; rd = plus; break;
    default: errno = EINVAL; return nullptr;
  }
  OpenFile *o = do_open(path, rd, wr, cr, tr, ap, strchr(mode, 'x') != nullptr);
  if (!o) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  char m[4]; int k = 0; m[k++] = mode[0]; if (plus) m[k++] = '+'; m[k] = 0;
  FILE *fp = fopencookie(o, m, io);
  if (!fp) { do_close(o); return nullptr; }
  o->fp = fp; g_fs->fps[fp] = o;
  return fp;
}
static OpenFile *of(int fd) {
  if (!g_active || fd < 1000 || !g_fs) return nullptr;
  auto it = g_fs->fds.find(fd);
  return it == g_fs->fds.end() ? nullptr : it->second;
}
static void fill_stat(Inode *n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = n->data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (n->data.size() + 511) / 512;
}
static int sim_stat(const char *p, struct stat *st) {
  auto it = g_fs->files.find(norm(p));
  if (it == g_fs->files.end()) { errno = ENOENT; return -1; }
  fill_stat(it->second.get(), st);
  return 0;
}
static int sim_unlink(const char *p) {
  event(); tick();
  std::string s = norm(p);
  if (FaultSpec *f = hit(OP_ANY, s)) { if (f->act == A_DIE) die("unlink"); errno = f->err; return -1; }
  if (!g_fs->files.erase(s)) { errno = ENOENT; return -1; }
  note("unlink %s", s.c_str());
  return 0;
}

// ------------------------------------------------------------------ environment
void env_benign(unsigned kinds) {
  SimScope sc;
  if (kinds & E_MEM) {
    g_fill = (int)env(7);
    g_reuse = (int)env(3);
    g_fillseed = g_fill >= 2 ? 1 + env(1u << 30) : 1;
    if (g_fill) { char b[32]; snprintf(b, sizeof b, "memory_fill_%d", g_fill); fault(b); }
    if (g_reuse) fault(g_reuse == 2 ? "memory_reuse_stale" : "memory_reuse");
    sched(g_fill * 3 + g_reuse);
    g_fence = flip(ENV, 1, 40);
    if (g_fence) { fault("memory_fence"); sched(0xfe); }
  }
  if (kinds & E_CHUNK) {
    g_rdmode = (int)env(4); g_wrmode = (int)env(4);
    g_eintr = flip(ENV, 1, 3); g_fixchunk = 1 + (int)env(16);
  }
  if (kinds & E_RAND) {
    g_randmode = (int)env(5);
    if (g_randmode) { char b[32]; snprintf(b, sizeof b, "random_bias_%d", g_randmode); fault(b); sched(0x4a0 + g_randmode); }
  }
  if (kinds & E_TIME) { g_latency = (int)env(3); g_wallmode = (int)env(3); }
}

static void scribble() __attribute__((noinline));
static void scribble() {
  // fill the unused stack below this frame, so that uninitialised locals hold chosen values
  char *sp = (char *)__builtin_frame_address(0);
  uint64_t v = g_fill == 1 ? ~0ull : g_fill == 2 ? 0x9e3779b97f4a7c15ull * g_fillseed : g_fill == 3 ? 0x0000000300000002ull : g_fill == 4 ? 0x3ff0000000000000ull : g_fill == 5 ? 0xa5a5a5a5a5a5a5a5ull : g_fill == 6 ? (uint64_t)(ARENA + 65536) : 0;
  volatile uint64_t *q = (volatile uint64_t *)(((uintptr_t)sp - 4096) & ~15ull);
  for (int i = 0; i < 16384; i++) *--q = v;
}

Result run_sut(const std::function<void()> &f) {
  Result r; r.kind = Result::RETURNED; r.code = 0;
  if (g_armed) harness_error("nested run_sut");
  scribble();
  std::set_terminate(on_terminate);
  volatile int code = sigsetjmp(g_jmp, 1);
  if (code == 0) {
    g_armed = true;
    try { SutScope sc; f(); }
    catch (std::exception &e) { g_sut = false; r.kind = Result::EXCEPTION; r.what = e.what(); }
    catch (...) { g_sut = false; r.kind = Result::EXCEPTION; r.what = "unknown exception"; }
  } else {
    g_sut = false;
    if (code >= J_DIE) r.kind = Result::DIED;
    else if (code >= J_EXIT) { r.kind = Result::EXITED; r.code = code - J_EXIT; }
    else if (code >= J_HANG) { r.kind = Result::HUNG; r.what = g_whybuf; }
    else if (code >= J_TERM) r.kind = Result::TERMINATED;
    else { r.kind = Result::SIGNALLED; r.code = code - J_SIG; }
  }
  g_armed = false;
  note("code under test %s", r.str().c_str());
  return r;
}

std::string in_process(const std::function<std::string()> &f) {
  SimScope sc;
  const size_t CAP = 8 << 20;
  struct Box { volatile size_t n; volatile int ok; char data[1]; };
  Box *b = (Box *)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) harness_error("mmap");
  pid_t pid = fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    struct itimerval tv = {{10, 0}, {45, 0}};   // after a first call that did not end, the next ones get less
    setitimer(ITIMER_VIRTUAL, &tv, 0);
    std::string s = f();
    if (s.size() > CAP - 64) harness_error("blob too large");
    memcpy(b->data, s.data(), s.size());
    b->n = s.size(); b->ok = 1;
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (S->outcome != O_NONE) _exit(0);     // the forked process ended the run
  if (!b->ok) harness_error("forked process vanished");
  std::string r(b->data, b->n);
  munmap(b, CAP);
  hashmix(fnv(r));
  return r;
}

// ------------------------------------------------------------------ captured standard output
struct CapBuf : std::streambuf {
  std::string out;
  int overflow(int c) override { SimScope s; if (c != EOF && out.size() < (4u << 20)) out.push_back((char)c); return c; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { SimScope s; if (out.size() < (4u << 20)) out.append(p, n); return n; }
};
static CapBuf *g_cap;
std::string captured_stdout() { return g_cap->out; }
void clear_stdout() { g_cap->out.clear(); }

// ------------------------------------------------------------------ one run in a child process
static void run_body() {
  g_check->fn();
  finish(O_OK, "", "");
}
static void child() {
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0); dup2(dn, 1);
  static char alt[65536];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM};
  for (int s : sigs) sigaction(s, &sa, 0);
  struct itimerval tv = {{10, 0}, {45, 0}};   // after a first call that did not end, the next ones get less
  setitimer(ITIMER_VIRTUAL, &tv, 0);
  if (mmap(GARENA, GARENA_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(9);
  if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(9);
  char *stk = (char *)0x200000000000ull;
  size_t sz = 256 << 20;
  if (mmap(stk, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(9);
  g_cap = new CapBuf;
  std::cout.rdbuf(g_cap); std::cerr.rdbuf(g_cap); std::clog.rdbuf(g_cap);
  g_active = true;
  fs_reset();
  getcontext(&g_run_ctx);
  g_run_ctx.uc_stack.ss_sp = stk; g_run_ctx.uc_stack.ss_size = sz - 4096; g_run_ctx.uc_link = &g_main_ctx;
  makecontext(&g_run_ctx, run_body, 0);
  swapcontext(&g_main_ctx, &g_run_ctx);
  _exit(8);
}
static void jstr(std::string &o, const char *s) {
  o += '"';
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}
static std::string result_json(int status, bool withtrace) {
  static const char *on[] = {"none", "ok", "violation", "skip", "harness"};
  std::string o = "{\"outcome\":\"";
  if (S->outcome == O_NONE) {
    o += "harness\",\"cls\":\"harness\",\"msg\":\"child ended with status " + std::to_string(status) + "\"";
  } else {
    o += on[S->outcome]; o += "\",\"cls\":"; jstr(o, S->cls); o += ",\"msg\":"; jstr(o, S->msg);
  }
  o += strf(",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"simns\":%llu,\"events\":%llu,\"nontrivial\":%d", (unsigned long long)S->hash, (unsigned long long)S->schedule, (unsigned long long)S->simns, (unsigned long long)S->events, S->nontrivial);
  o += ",\"sample\":"; jstr(o, S->sample);
  o += ",\"faults\":{";
  for (int i = 0; i < S->nfaults; i++) { if (i) o += ","; jstr(o, S->faults[i].name); o += ":" + std::to_string(S->faults[i].n); }
  o += "},\"probes\":{";
  for (int i = 0; i < S->nprobes; i++) { if (i) o += ","; jstr(o, S->probes[i].name); o += ":" + std::to_string(S->probes[i].n); }
  o += "},\"states\":[";
  for (uint32_t i = 0; i < S->nstates; i++) { if (i) o += ","; o += strf("\"%llx\"", (unsigned long long)S->states[i]); }
  o += "]";
  if (withtrace) {
    for (int s = 0; s < NSTREAM; s++) {
      o += strf(",\"t%d\":[", s);
      for (uint32_t i = 0; i < S->ntrace[s]; i++) { if (i) o += ","; o += std::to_string(S->trace[s][i]); }
      o += "]";
    }
  }
  if (g_trace && S->nev) { S->evlog[S->nev] = 0; o += ",\"events_text\":"; jstr(o, S->evlog); }
  o += "}";
  return o;
}
static int run_child() {
  memset((void *)S, 0, offsetof(Shared, trace));
  S->hash = S->schedule = 1469598103934665603ull;
  S->nstates = 0; S->nev = 0;
  for (int s = 0; s < NSTREAM; s++) { S->pos[s] = 0; S->prng[s] = g_prng0[s]; }
  pid_t pid = fork();
  if (pid < 0) return -1;
  if (pid == 0) { child(); _exit(7); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
}  // namespace sim

using namespace sim;

static std::vector<uint32_t> parse_list(const char *p) {
  std::vector<uint32_t> r;
  while (*p && *p != '\n') {
    char *e; unsigned long v = strtoul(p, &e, 10);
    if (e == p) break;
    r.push_back((uint32_t)v);
    p = e;
    while (*p == ',' || *p == ' ') p++;
  }
  return r;
}

// protocol on stdin, one command per line:
//   run <check> <seed> <case> <wanttrace>      derive all choices from the seed
//   lists <check> <trace?> <genlist|-> <envlist|->   replay recorded choices
int main(int argc, char **argv) {
  if (argc > 1) g_tier = argv[1];
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 3;
  char *line = nullptr; size_t cap = 0;
  static std::vector<uint32_t> l0, l1;
  while (getline(&line, &cap, stdin) > 0) {
    char cmd[16], chk[64];
    int off = 0;
    if (sscanf(line, "%15s %63s %n", cmd, chk, &off) < 2) continue;
    g_check = nullptr;
    for (const CheckDef *c = CHECKS; c->name; c++) if (!strcmp(c->name, chk)) g_check = c;
    if (!g_check) { printf("{\"outcome\":\"harness\",\"cls\":\"harness\",\"msg\":\"no such check\"}\n"); fflush(stdout); continue; }
    bool want = false;
    if (!strcmp(cmd, "run")) {
      unsigned long long seed, cs; int w = 0;
      sscanf(line + off, "%llu %llu %d", &seed, &cs, &w);
      want = w;
      g_replay = false; g_trace = false;
      for (int s = 0; s < NSTREAM; s++) {
        uint64_t k[3] = {seed, cs, (uint64_t)s};
        g_prng0[s] = fnv(k, sizeof k, fnv(std::string(chk)));
      }
    } else {
      int t = 0, o2 = 0;
      sscanf(line + off, "%d %n", &t, &o2);
      const char *p = line + off + o2;
      g_trace = t & 1; want = true; g_replay = true;
      l0 = *p == '-' ? std::vector<uint32_t>() : parse_list(p);
      const char *q = strchr(p, ' ');
      if (q) { char *tmp = (char *)q; q++; l1 = *q == '-' ? std::vector<uint32_t>() : parse_list(q); (void)tmp; } else l1.clear();
      g_list[0] = &l0; g_list[1] = &l1;
    }
    int st = run_child();
    std::string o = result_json(st, want || S->outcome == O_VIOLATION);
    fwrite(o.data(), 1, o.size(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
  }
  return 0;
}

// ------------------------------------------------------------------ interposed seams
void *operator new(size_t n) { if (g_sut) return arena_alloc(n); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (!p) return; if (in_arena(p)) arena_free(p); else free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

namespace sim {
static uint32_t rnd32() {
  uint32_t v;
  switch (g_randmode) {
    case 1: v = flip(ENV, 1, 8) ? (uint32_t)env(1ull << 32) : 0; break;              // nearly always the smallest
    case 2: v = flip(ENV, 1, 8) ? (uint32_t)env(1ull << 32) : 0x7fffffcfu; break;    // nearly always large: 99 modulo 100
    case 3: v = (uint32_t)env(4); break;
    case 4: v = flip(ENV, 1, 2) ? 0x7fffffcfu : 0; break;
    default: v = (uint32_t)env(1ull << 32); break;
  }
  hashmix(v);
  return v;
}
}
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { SimScope s; if (!g_active) return 4; return rnd32(); }

extern "C" {
FILE *fopen(const char *p, const char *m) {
  SimScope s;
  if (!g_active) { errno = ENOENT; return nullptr; }
  return sim_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fileno(FILE *f) noexcept {
  SimScope s;
  if (g_active && g_fs) { auto it = g_fs->fps.find(f); if (it != g_fs->fps.end()) return it->second->fd; }
  if (f == stdin) return 0;
  if (f == stdout) return 1;
  if (f == stderr) return 2;
  errno = EBADF; return -1;
}
FILE *fdopen(int fd, const char *mode) noexcept {
  SimScope s;
  OpenFile *o = of(fd);
  if (!o) { errno = EBADF; return nullptr; }
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(o, mode, io);
  if (fp) { o->fp = fp; g_fs->fps[fp] = o; }
  return fp;
}
ssize_t read(int fd, void *b, size_t n) { SimScope s; if (OpenFile *o = of(fd)) return do_read(o, b, n, false); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { SimScope s; if (OpenFile *o = of(fd)) return do_write(o, b, n, false); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  SimScope s;
  OpenFile *o = of(fd);
  if (!o) return syscall(SYS_writev, fd, v, c);
  std::string all;
  for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
  return do_write(o, all.data(), all.size(), false);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  SimScope s;
  OpenFile *o = of(fd);
  if (!o) return syscall(SYS_readv, fd, v, c);
  return do_read(o, v[0].iov_base, v[0].iov_len, false);
}
static int open_flags(const char *p, int fl) {
  int acc = fl & O_ACCMODE;
  OpenFile *o = do_open(p, acc == O_RDONLY || acc == O_RDWR, acc == O_WRONLY || acc == O_RDWR, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
  return o ? o->fd : -1;
}
int open(const char *p, int fl, ...) { SimScope s; if (!g_active) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return (int)syscall(SYS_open, p, fl, m); } return open_flags(p, fl); }
int open64(const char *p, int fl, ...) { SimScope s; if (!g_active) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return (int)syscall(SYS_open, p, fl, m); } return open_flags(p, fl); }
int openat(int, const char *p, int fl, ...) { SimScope s; if (!g_active) { errno = ENOSYS; return -1; } return open_flags(p, fl); }
int openat64(int, const char *p, int fl, ...) { SimScope s; if (!g_active) { errno = ENOSYS; return -1; } return open_flags(p, fl); }
int creat(const char *p, mode_t) { SimScope s; if (!g_active) { errno = ENOSYS; return -1; } return open_flags(p, O_CREAT | O_WRONLY | O_TRUNC); }
int close(int fd) { SimScope s; if (OpenFile *o = of(fd)) return do_close(o); return (int)syscall(SYS_close, fd); }
off_t lseek(int fd, off_t off, int wh) noexcept { SimScope s; if (OpenFile *o = of(fd)) return do_seek(o, off, wh); return syscall(SYS_lseek, fd, off, wh); }
off64_t lseek64(int fd, off64_t off, int wh) noexcept { return lseek(fd, off, wh); }
int fstat(int fd, struct stat *st) noexcept { SimScope s; if (OpenFile *o = of(fd)) { fill_stat(o->ino.get(), st); return 0; } return (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept { SimScope s; if (g_active) return sim_stat(p, st); return (int)syscall(SYS_stat, p, st); }
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept { return stat(p, st); }
int lstat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int access(const char *p, int) noexcept { SimScope s; if (!g_active) return -1; if (fs_exists(p)) return 0; errno = ENOENT; return -1; }
int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
  SimScope s;
  if (OpenFile *o = of(fd)) {
    if (rq == FIONREAD) { *(int *)a = (int)(o->ino->data.size() > o->pos ? o->ino->data.size() - o->pos : 0); return 0; }
    errno = ENOTTY; return -1;
  }
  return (int)syscall(SYS_ioctl, fd, rq, a);
}
int poll(struct pollfd *f, nfds_t n, int t) {
  SimScope s;
  if (n == 1 && of(f[0].fd)) { f[0].revents = f[0].events & (POLLIN | POLLOUT); return 1; }
  return (int)syscall(SYS_poll, f, n, t);
}
int rename(const char *a, const char *b) noexcept {
  SimScope s;
  if (!g_active) { errno = ENOENT; return -1; }
  event(); tick();
  std::string x = norm(a), y = norm(b);
  if (FaultSpec *f = hit(OP_CLOSE, y)) { if (f->act == A_DIE) die("rename"); errno = f->err; return -1; }
  auto it = g_fs->files.find(x);
  if (it == g_fs->files.end() || !parent_ok(y)) { errno = ENOENT; return -1; }
  auto n = it->second;
  g_fs->files.erase(it);
  g_fs->files[y] = n;
  g_fs->hist[y].push_back(n->data);
  note("rename %s %s", x.c_str(), y.c_str());
  return 0;
}
int unlink(const char *p) noexcept { SimScope s; if (!g_active) { errno = ENOENT; return -1; } return sim_unlink(p); }
int remove(const char *p) noexcept { return unlink(p); }
int mkdir(const char *p, mode_t) noexcept {
  SimScope s;
  if (!g_active) { errno = EPERM; return -1; }
  if (fs_exists(p)) { errno = EEXIST; return -1; }
  if (!parent_ok(norm(p))) { errno = ENOENT; return -1; }
  fs_mkdir(p);
  return 0;
}
int rmdir(const char *p) noexcept { return unlink(p); }
int fsync(int fd) { SimScope s; if (OpenFile *o = of(fd)) { event(); tick(); if (FaultSpec *f = hit(OP_WRITE, o->path)) { if (f->act == A_DIE) die("fsync"); errno = f->err; return -1; } return 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept { SimScope s; if (OpenFile *o = of(fd)) { o->ino->data.resize(n); o->dirty = true; return 0; } return (int)syscall(SYS_ftruncate, fd, n); }

int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  SimScope s;
  if (!g_active) return (int)syscall(SYS_clock_gettime, c, ts);
  event();
  clock_advance(200); g_cpu += 200;
  if (g_latency == 1 && flip(ENV, 1, 8)) { int64_t d = (int64_t)env(2000000000); clock_advance(d); fault("stalled_at_clock"); sched(d); }   // the process is not running for a while
  else if (g_latency == 2) clock_advance((int64_t)env(50000));
  wall_maybe();
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? g_wall
            : (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? g_cpu : g_mono;
  if (v < 0) v = 0;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  note("clock %d -> %lld", (int)c, (long long)v);
  return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock() noexcept { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
int nanosleep(const struct timespec *rq, struct timespec *) { SimScope s; clock_advance(rq->tv_sec * 1000000000ll + rq->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *rq, struct timespec *) { SimScope s; clock_advance(rq->tv_sec * 1000000000ll + rq->tv_nsec); return 0; }
int usleep(useconds_t u) { SimScope s; clock_advance((int64_t)u * 1000); return 0; }
unsigned sleep(unsigned u) { SimScope s; clock_advance((int64_t)u * 1000000000ll); return 0; }

int rand() noexcept { SimScope s; if (!g_active) return 1; return (int)(rnd32() & 0x7fffffff); }
void srand(unsigned) noexcept {}
long random() noexcept { return rand(); }
void srandom(unsigned) noexcept {}
int rand_r(unsigned *) noexcept { return rand(); }
double drand48() noexcept { return rand() / 2147483648.0; }
ssize_t getrandom(void *b, size_t n, unsigned) { SimScope s; for (size_t i = 0; i < n; i++) ((char *)b)[i] = g_active ? (char)env(256) : 0; return (ssize_t)n; }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }

void exit(int code) noexcept { if (g_active && g_sut && g_armed) { leave(J_EXIT + (code & 255)); } fflush(nullptr); _exit(code); }
}
