// Readers, writers and the log: C04, C05, C06, C15.
#include "common.hpp"
#include <errno.h>
#include <algorithm>
#include "basePipe.hpp"
#include "pipePacket.hpp"
#include "preprocessor.hpp"
#include "readInput.hpp"
#include "utils.hpp"
#include "writeOutput.hpp"
using namespace sim;
using namespace ck;

static const int ERRS[] = {EIO, ENOSPC, EACCES, EMFILE};
static Rows gen_table(int nmax, int dmax, bool allow_empty) {
  Rows r;
  int n = range(GEN, allow_empty ? 0 : 1, nmax), d = range(GEN, 1, dmax), kind = (int)gen(5);
  if (kind == 4) probe("extreme_magnitudes");
  for (int i = 0; i < n; i++) {
    std::vector<double> p(d);
    for (auto &x : p) {
      if (kind == 0) x = (double)gen(10);
      else if (kind == 1) x = (double)gen(20001) / 1000.0 - 10;
      else if (kind == 2) x = ((double)gen(1u << 31) / (1u << 31) - 0.5) * std::pow(10.0, (double)gen(13) - 6);
      else if (kind == 4) x = (flip(GEN, 1, 4) ? -1 : 1) * (1 + (double)gen(1000) / 1000) * std::pow(10.0, flip(GEN, 1, 2) ? (double)gen(40) - 20 : (double)gen(629) - 321);
      else x = flip(GEN, 1, 2) ? -0.0 : (double)gen(1000000007) * (flip(GEN, 1, 2) ? -1.0 : 1e3);
    }
    r.push_back(p);
  }
  return r;
}
// sizes at which buffers, batches and counters like to change
static int edge_size(int limit) {
  static const int B[] = {100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536};
  int k = 0; while (k < 16 && B[k] <= limit) k++;
  int b = k == 16 && flip(GEN, 1, 4) ? 65536 : B[gen(k)];
  return b + (int)gen(3) - 1;
}
// many rows or many columns from one drawn number
static Rows big_table(int n, int d) {
  uint64_t x = gen(1u << 31) + 1; int kind = (int)gen(3);
  Rows r(n, std::vector<double>(d));
  probe(n > 65536 ? "table_over_65536_rows" : n > d ? "table_many_rows" : "table_many_columns");
  for (auto &p : r) for (auto &v : p) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    v = kind == 0 ? (double)(x % 10) : kind == 1 ? (double)(x % 20001) / 1000.0 - 10 : ((double)(x % (1u << 30)) / (1u << 30) - 0.5) * 1e4;
  }
  return r;
}
static bool same6(double a, double b) { return std::fabs(a - b) <= 5.1e-7 + 1e-15 * std::fabs(a); }
// ------------------------------------------------------------------ C04
static const char *WN[] = {"writeStats", "writeBarcodes(text)", "writeCSV(text)", "writeCSV(text,header)", "writeBarcodes(rows)", "writeCSV(rows)", "writeCSV(rows,header)", "writeMAT"};
static std::string gen_text(bool big) {
  int shape = (int)gen(4); std::string t;
  if (shape == 0) return "";
  int lines = 1 + (int)gen(shape == 3 ? (big ? 3000 : 400) : 6);
  if (shape == 2 && flip(GEN, 1, 20)) { Rows b = big_table(2000 + (int)gen(60000), 2); for (auto &r : b) t += strf("1,%.6f,%.6f\n", r[0], r[1]); return t; }
  for (int i = 0; i < lines; i++) t += strf("%d,%.6f,%.6f\n", (int)gen(3), (double)gen(100000) / 1e4, (double)gen(100000) / 1e4);
  if (shape == 2) t.pop_back();
  return t;
}
static std::string cmp_rows_text(const std::string &body, const Rows &rows) {
  auto l = split(body, '\n');
  if (l.back() != "") return "the last line is not terminated";
  l.pop_back();
  if (l.size() != rows.size()) return strf("%zu lines for %zu rows", l.size(), rows.size());
  for (size_t i = 0; i < l.size(); i++) {
    auto f = split(l[i], ',');
    if (f.size() && f.back().empty()) f.pop_back();
    if (f.size() != rows[i].size()) return strf("line %zu holds %zu values, its row %zu", i + 1, f.size(), rows[i].size());
    for (size_t j = 0; j < f.size(); j++) {
      char *e; double v = strtod(f[j].c_str(), &e);
      if (*e || f[j].empty() || !same6(v, rows[i][j])) return strf("line %zu value %zu is '%s', should be %.9g", i + 1, j + 1, f[j].substr(0, 40).c_str(), rows[i][j]);
    }
  }
  return "";
}
struct WJob { int v; std::string text, header, name, path; Rows rows; };
static std::string content_error(const WJob &j, const std::string &c) {
  static const std::string SH = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n", BH = "dimension,birth,death\n";
  std::string h = j.v == 0 ? SH : j.v == 1 || j.v == 4 ? BH : j.v == 3 || j.v == 6 ? j.header : "";
  if (j.v < 4) {
    std::string want = h + j.text;
    if (c == want) return "";
    size_t k = 0; while (k < c.size() && k < want.size() && c[k] == want[k]) k++;
    return strf("the file has %zu bytes, its content %zu, first difference at %zu", c.size(), want.size(), k);
  }
  if (j.v == 7) {
    auto l = split(c, '\n');
    if (l.back() != "") return "the last line is not terminated";
    l.pop_back();
    size_t d = j.rows.size() ? j.rows[0].size() : 0;
    if (l.size() != 2 + j.rows.size() * d) return strf("%zu lines for %zu values", l.size(), j.rows.size() * d);
    if (l[0] != std::to_string(j.rows.size()) || l[1] != std::to_string(d)) return "the first two lines are '" + l[0] + "' and '" + l[1] + "'";
    for (size_t i = 0; i < j.rows.size(); i++) for (size_t k = 0; k < d; k++) {
      const std::string &f = l[2 + i * d + k]; char *e; double v = strtod(f.c_str(), &e);
      if (*e || f.empty() || !same6(v, j.rows[i][k])) return strf("value %zu of row %zu is '%s', should be %.9g", k + 1, i + 1, f.substr(0, 40).c_str(), j.rows[i][k]);
    }
    return "";
  }
  if (c.compare(0, h.size(), h)) return "the header is missing";
  return cmp_rows_text(c.substr(h.size()), j.rows);
}
void check_C04() {
  bool thorough = g_tier == "thorough";
  int n = 1 + (int)gen(4);
  std::vector<WJob> jobs; std::string what;
  static const char *NM[] = {"out", "res/x", "a b.c", "missing/dir/y"};
  for (int i = 0; i < n; i++) {
    WJob j; j.v = (int)gen(8);
    int nm = flip(GEN, 1, 12) ? 3 : (int)gen(3);
    j.name = NM[nm]; j.path = j.name + (j.v == 0 ? "_stats.csv" : j.v == 7 ? ".mat" : ".csv");
    if (j.v < 4) j.text = gen_text(thorough);
    else if (flip(GEN, 1, 40)) { int n = edge_size(gen(4) ? 10000 : 70000); j.rows = gen(4) ? big_table(n, 1 + (int)gen(3)) : big_table(1 + (int)gen(4), std::min(n, 9000)); }
    else j.rows = gen_table(flip(GEN, 1, 4) ? (thorough ? 1500 : 300) : 8, 6, true);
    if (j.v == 3 || j.v == 6) j.header = flip(GEN, 1, 2) ? "dim,birth,death\n" : "a,b\nc\n";
    what += strf("%s%s to %s (%zu %s)", i ? ", " : "", WN[j.v], j.path.c_str(), j.v < 4 ? j.text.size() : j.rows.size(), j.v < 4 ? "bytes" : "rows");
    jobs.push_back(j);
  }
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_mkdir("res");
  bool one = flip(GEN, 1, 2);      // one writer object for all
  writeOutput *shared = nullptr;
  std::string fd;
  for (int i = 0; i < n; i++) {
    WJob &j = jobs[i];
    clear_faults();
    bool missing = j.name[0] == 'm';
    if (!missing && flip(ENV, 1, 3)) { fs_put(j.path, std::string(env(3) * 5000, 'z') + "old\n"); fault("old_results_present"); }
    std::string f1;
    if (flip(ENV, 2, 3)) {
      int nf = 1 + (int)env(2);
      for (int q = 0; q < nf; q++) {
        int k = (int)env(5);
        if (k == 4) {
          // the disk may be full before, inside or after this file
          int64_t used = 0; for (auto &p : fs_list()) if (p != j.path) used += (int64_t)fs_get(p).size();
          int64_t cap = used + (int64_t)env(env(2) ? 200 : 40000);
          disk_capacity(cap); f1 += strf(" disk of %lld bytes;", (long long)cap);
          continue;
        }
        FaultSpec f; f.op = k == 0 ? OP_OPEN : k == 1 ? OP_CLOSE : OP_WRITE; f.path = env(4) ? j.path : "";
        f.k = f.op == OP_WRITE ? (long)env(8) : 0; f.sticky = flip(ENV, 1, 3); f.act = A_FAIL;
        f.err = f.op == OP_OPEN ? ERRS[env(4)] : ERRS[env(2)];
        add_fault(f);
        f1 += strf(" %s number %ld fails%s;", f.op == OP_OPEN ? "open" : f.op == OP_CLOSE ? "close" : "write", f.k + 1, f.sticky ? " and all after" : "");
      }
    }
    uint64_t before = faults_fired();
    bool ret = false;
    Result r = run_sut([&] {
      if (!shared || !one) shared = new writeOutput();
      writeOutput &w = *shared;
      switch (j.v) {
        case 0: ret = w.writeStats(j.text, j.name); break;
        case 1: ret = w.writeBarcodes(j.text, j.name); break;
        case 2: ret = w.writeCSV(j.text, j.name); break;
        case 3: ret = w.writeCSV(j.text, j.name, j.header); break;
        case 4: ret = w.writeBarcodes(j.rows, j.name); break;
        case 5: ret = w.writeCSV(j.rows, j.name); break;
        case 6: ret = w.writeCSV(j.rows, j.name, j.header); break;
        default: ret = w.writeMAT(j.rows, j.name);
      }
    });
    bool fired = faults_fired() > before;
    fd += strf("; call %d%s -> %d", i + 1, f1.c_str(), ret);
    std::string ctx = strf("%s (call %d) ", WN[j.v], i + 1) + "in " + what + fd;
    if (!r.ok()) violation("writer-crash", "the writer " + r.str() + ": " + ctx);
    if (missing) {
      if (ret) violation("false-success", "reports success for a file in a directory that does not exist: " + ctx);
      probe("missing_directory"); continue;
    }
    if (!ret && !fired) violation("false-failure", "reports failure although nothing failed: " + ctx);
    if (ret) {
      std::string e = fs_exists(j.path) ? content_error(j, fs_get(j.path)) : "there is no file";
      if (e.size()) violation("false-success", "reports success but " + e + ": " + ctx);
      if (fired) violation("false-success", "reports success although an operation on the file failed: " + ctx);
      state(fnv(fs_get(j.path)));
      if (fs_get(j.path).size() > 8191) probe("several_buffers");
      // read back by LHF itself
      if (j.v == 5 || j.v == 7) {
        clear_faults();
        Rows got;
        Result q = run_sut([&] { readInput ri; got = j.v == 5 ? ri.readCSV(j.path) : ri.readMAT(j.path); });
        if (!q.ok()) violation("read-back", "reading the file back " + q.str() + ": " + ctx);
        bool ok = got.size() == j.rows.size();
        for (size_t a = 0; ok && a < got.size(); a++) {
          ok = got[a].size() == j.rows[a].size();
          for (size_t b = 0; ok && b < got[a].size(); b++) ok = same6(got[a][b], j.rows[a][b]);
        }
        if (!ok) violation("read-back", "reads back as " + show(got) + " instead of " + show(j.rows) + ": " + ctx);
        probe("read_back");
      }
    } else probe("reported_failure");
    if (fired) probe("fault_fired");
    nontrivial();
  }
  sample(what + fd);
}

// ------------------------------------------------------------------ C05, C06: file contents
static std::string gen_file(Rows &seen, bool longlines, std::string &desc, int nmax) {
  int shape = (int)gen(10);
  if (shape == 0) { seen.clear(); const char *v[] = {"", "\n", "  \n\n", "\r\n\r\n"}; int k = (int)gen(4); desc = strf("no rows (%d)", k); return v[k]; }
  bool huge = flip(GEN, 1, 80);
  int hn = !huge ? 0 : edge_size(nmax < 300 ? 5000 : gen(4) ? 10000 : 70000);      // streams are read one row at a time
  Rows r = huge ? gen(4) ? big_table(hn, 1 + (int)gen(2)) : big_table(1 + (int)gen(4), std::min(hn, 2100)) : gen_table(shape > 7 ? nmax : 12, 6, false);
  if (!huge && flip(GEN, 1, 5)) for (auto &p : r) if (flip(GEN, 1, 3)) p.resize(1 + gen(p.size()));   // rows of different lengths
  CsvOpt c; c.decorate = !huge && flip(GEN, 3, 4); c.longlines = longlines && !huge && flip(GEN, 1, 4);
  std::string d;
  std::string t = gen_csv(r, seen, c, &d);
  if (c.longlines) probe("long_lines");
  desc = strf("%zu rows, %zu bytes, %s", seen.size(), t.size(), d.c_str());
  return t;
}
static std::string gen_mat(Rows &seen, std::string &desc, size_t &lasttok) {
  bool huge = flip(GEN, 1, 80);
  int hn = !huge ? 0 : edge_size(gen(4) ? 10000 : 40000);
  Rows r = huge ? gen(3) ? big_table(hn, 1 + (int)gen(2)) : big_table(1 + (int)gen(4), std::min(hn, 9000)) : gen_table(flip(GEN, 1, 6) ? 200 : 10, 5, true);
  int style = (int)gen(11), eol = (int)gen(3) == 2, blanks = !huge && (int)gen(3) == 2, nofinal = flip(GEN, 1, 3), sp = (int)gen(4) == 3;
  const char *nl = eol ? "\r\n" : "\n";
  if (style > 6) style += 2;
  std::string t = (sp ? " " : "") + std::to_string(r.size()) + nl + std::to_string(r.size() ? r[0].size() : 0) + (sp ? "  " : "") + nl;
  seen.clear(); lasttok = t.size();
  for (size_t i = 0; i < r.size(); i++) {
    std::vector<double> row;
    for (size_t j = 0; j < r[i].size(); j++) {
      if (blanks && flip(GEN, 1, 4)) t += std::string(gen(3), ' ') + nl;
      if (sp) t += " ";
      std::string k = token(r[i][j], style);
      row.push_back(strtod(k.c_str(), nullptr));
      lasttok = t.size();
      t += k;
      if (i + 1 < r.size() || j + 1 < r[i].size() || !nofinal) t += nl;
    }
    seen.push_back(row);
  }
  desc = strf("MAT of %zu rows, %zu bytes, crlf=%d blanks=%d nofinal=%d", seen.size(), t.size(), eol, blanks, nofinal);
  if (eol) probe("mat_crlf");
  if (blanks) probe("mat_blank_lines");
  return t;
}
static std::string first_diff(const Rows &got, const Rows &want) {
  if (got.size() != want.size()) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    return strf("%zu rows instead of %zu, the first wrong one is number %zu", got.size(), want.size(), i + 1);
  }
  for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) return strf("row %zu is ", i + 1) + show({got[i]}) + " instead of " + show({want[i]});
  return "";
}
void check_C05() {
  int n = 1 + (int)gen(3);
  bool one = flip(GEN, 1, 2);
  env_benign(E_CHUNK | E_MEM | E_TIME);
  readInput *shared = nullptr;
  std::string all;
  for (int i = 0; i < n; i++) {
    clear_faults();
    bool mat = flip(GEN, 1, 2); Rows want; std::string desc; size_t lasttok = 0;
    std::string file = mat ? gen_mat(want, desc, lasttok) : gen_file(want, true, desc, 300);
    std::string path = mat ? "data.mat" : "data.csv";
    int mode = (int)gen(6);     // 0,1,2 fault free, 3 read error, 4 open fails / missing / directory, 5 truncated MAT
    if (mode == 5 && (!mat || want.empty())) mode = 3;
    if (mode == 5) { size_t cut = gen(lasttok + 1); file.resize(cut); desc += strf(", cut after %zu bytes", cut); probe("truncated"); }
    fs_remove(path);
    fs_put(path, file);
    if (mode == 3) {
      FaultSpec f; f.op = OP_READ; f.path = path; f.sticky = flip(ENV, 1, 2); f.act = A_FAIL; f.err = EIO;
      f.k = (long)env(env(2) ? 3 : 12);
      add_fault(f);
      desc += strf(", read number %ld fails%s", f.k + 1, f.sticky ? " and all after" : "");
    } else if (mode == 4) {
      int v = (int)gen(3);
      if (v == 0) fs_remove(path);
      else if (v == 1) { fs_remove(path); fs_mkdir(path); }
      else { FaultSpec f; f.op = OP_OPEN; f.path = path; f.k = 0; f.sticky = true; f.act = A_FAIL; f.err = ERRS[env(4)]; add_fault(f); }
      desc += strf(", cannot be opened (%d)", v);
    }
    all += (i ? "; then " : "") + desc;
    uint64_t before = faults_fired();
    Rows got;
    Result r = run_sut([&] {
      if (!shared || !one) shared = new readInput();
      got = mat ? shared->readMAT(path) : shared->readCSV(path);
    });
    bool fired = faults_fired() > before;
    if (r.kind == Result::HUNG) violation("hang", "the reader does not terminate: " + all);
    bool fail = mode == 4 || mode == 5 || fired;
    if (!r.ok()) {
      if (!(fail && r.kind == Result::EXCEPTION)) violation("reader-crash", "the reader " + r.str() + ": " + all);
      probe("exception"); continue;
    }
    if (mode == 4 || mode == 5) {
      if (!got.empty()) violation("partial", strf("%zu rows were returned from a file that ", got.size()) + (mode == 4 ? "could not be opened: " : "ends early: ") + all);
      nontrivial();
    } else if (fired) {
      if (!got.empty() && got != want) violation("partial", "a read failed, and " + first_diff(got, want) + ": " + all);
      probe("read_failed"); nontrivial();
    } else {
      if (got != want) violation("wrong-rows", first_diff(got, want) + ": " + all);
      if (want.size() > 1) nontrivial();
      uint64_t h = 1469598103934665603ull; for (auto &row : got) h = fnv(row.data(), row.size() * 8, h);
      state(h);
    }
    if (fs_open_count() > 0) violation("left-open", strf("%d files are still open after the reader returned: ", fs_open_count()) + all);
    if (mode == 4) { fs_remove(path); }
  }
  sample(all);
}
struct Stream6 { std::string path, desc; Rows want, got; readInput *ri = nullptr; bool ended = false, broken = false; size_t limit = 0; };
void check_C06() {
  env_benign(E_CHUNK | E_MEM | E_TIME);
  int nr = 1 + (int)gen(2);            // readers working at the same time
  int ns = 1 + (int)gen(3);            // streams opened one after another on each
  std::vector<Stream6> cur(nr);
  std::vector<readInput *> ri(nr, nullptr);
  std::vector<int> left(nr, ns);
  std::string all; int files = 0; bool faulty = flip(GEN, 1, 2);
  auto open = [&](int a) {
    Stream6 s; s.path = strf("f%d.csv", files++);
    std::string t = gen_file(s.want, true, s.desc, 200);
    bool missing = flip(GEN, 1, 12);
    if (!missing) fs_put(s.path, t);
    s.limit = flip(GEN, 1, 4) ? gen(s.want.size() + 1) : s.want.size() + 10;
    if (missing) s.desc += ", missing";
    if (faulty && flip(ENV, 1, 2)) {
      FaultSpec f; f.op = env(6) == 5 ? OP_OPEN : OP_READ; f.path = s.path; f.k = f.op == OP_OPEN ? 0 : (long)env(env(2) ? 2 : 6); f.sticky = flip(ENV, 1, 2); f.act = A_FAIL; f.err = EIO;
      add_fault(f); s.desc += strf(", %s number %ld fails", f.op == OP_OPEN ? "open" : "read", f.k + 1);
    }
    all += strf("%sreader %d: %s", all.size() ? "; " : "", a + 1, s.desc.c_str());
    uint64_t before = faults_fired();
    bool ok = false;
    Result r = run_sut([&] { if (!ri[a]) ri[a] = new readInput(); ok = ri[a]->streamInit(s.path); });
    bool fired = faults_fired() > before;
    if (!r.ok()) violation("reader-crash", "streamInit " + r.str() + ": " + all);
    if (ok && missing) violation("open", "streamInit reports success for a missing file: " + all);
    if (!ok && !missing && !fired) violation("open", "streamInit reports failure: " + all);
    if (!ok) { s.broken = true; s.want.clear(); }
    s.ri = ri[a]; cur[a] = s; left[a]--;
  };
  for (int a = 0; a < nr; a++) open(a);
  int steps = 0;
  while (true) {
    std::vector<int> live;
    for (int a = 0; a < nr; a++) if (!cur[a].ended || left[a] > 0) live.push_back(a);
    if (live.empty()) break;
    if (++steps > 12000) break;
    int a = live[gen(live.size())];
    Stream6 &s = cur[a];
    if (s.ended || s.got.size() >= s.limit) {
      if (!s.ended && s.got.size() >= s.limit) { probe("stream_abandoned"); }
      if (left[a] > 0) { open(a); continue; }
      if (!s.ended) s.limit = s.want.size() + 10;
      if (s.ended) continue;
    }
    std::vector<double> row; bool more = false;
    uint64_t before = faults_fired();
    Result r = run_sut([&] { more = s.ri->streamRead(row); });
    if (faults_fired() > before) s.broken = true;
    if (r.kind == Result::HUNG) violation("hang", "streamRead does not return: " + all);
    if (!r.ok()) { violation("reader-crash", "streamRead " + r.str() + ": " + all); }
    if (more) {
      size_t i = s.got.size();
      if (i >= s.want.size()) violation("extra-row", strf("row %zu delivered of a file of %zu: ", i + 1, s.want.size()) + show({row}) + ": " + all);
      if (row != s.want[i]) violation("wrong-row", strf("row %zu of %s is delivered as ", i + 1, s.path.c_str()) + show({row}) + " instead of " + show({s.want[i]}) + ": " + all);
      s.got.push_back(row);
    } else {
      if (!s.broken && s.got.size() != s.want.size()) violation("early-end", strf("the end is reported after %zu of %zu rows: ", s.got.size(), s.want.size()) + all);
      s.ended = true;
      if (s.broken) probe("ended_by_failure");
      if (s.want.size() > 1) nontrivial();
      // the end stays the end
      std::vector<double> again; bool m2 = false;
      Result q = run_sut([&] { m2 = s.ri->streamRead(again); });
      if (!q.ok()) violation("reader-crash", "streamRead after the end " + q.str() + ": " + all);
      if (m2 && !s.broken) violation("extra-row", "a row is delivered after the end: " + all);
      uint64_t h = 1469598103934665603ull; for (auto &x : s.got) h = fnv(x.data(), x.size() * 8, h);
      state(h);
      // the batch reader agrees
      if (!s.broken && fs_exists(s.path) && flip(GEN, 1, 3)) {
        Rows b; readInput *other = nullptr;
        clear_faults();
        Result c = run_sut([&] { other = new readInput(); b = other->readCSV(s.path); });
        if (!c.ok() || b != s.got) violation("batch-differs", "the batch reader returns other rows: " + all);
        probe("batch_compared");
      }
    }
  }
  bool ended = true;
  for (auto &c : cur) ended = ended && c.ended;
  if (ended && fs_open_count() > 0) violation("left-open", strf("%d files are still open after every stream has ended: ", fs_open_count()) + all);
  sample(all);
}

// ------------------------------------------------------------------ C15
static void c15_loggers() {
  int files = 1 + (int)gen(2), nl = 1 + (int)gen(4), n = 2 + (int)gen(flip(GEN, 1, 60) ? 700 : g_tier == "thorough" ? 60 : 25);
  static const char *DBG[] = {"0", "1", "false", "true"};
  static const char *FN[] = {"run.log", "res/other"};
  struct L { int file; bool console, dbg; std::string d; utils *u = nullptr; };
  std::vector<L> ls;
  std::string what;
  for (int i = 0; i < nl; i++) {
    L l; l.d = DBG[gen(4)]; l.dbg = l.d == "1" || l.d == "true"; l.file = (int)gen(files); l.console = flip(GEN, 1, 8);
    what += strf("%slogger %d(debug=%s,%s)", i ? " " : "", i + 1, l.d.c_str(), l.console ? "console" : FN[l.file]);
    ls.push_back(l);
  }
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_mkdir("res");
  std::vector<std::string> expect(files), pending(files);
  for (int f = 0; f < files; f++) if (flip(GEN, 1, 2)) {
    expect[f] = flip(GEN, 1, 2) ? "an older log\nsecond line\n" : std::string(1 + gen(9000), 'q');
    if (flip(GEN, 1, 200)) { expect[f].append((70000u << gen(5)) + gen(5000), 'r'); probe("large_log"); }
    fs_put(FN[f], expect[f]);
  }
  int faulty = flip(GEN, 3, 4);
  int deaths = 0, fired_n = 0;
  clear_stdout();
  std::string con;
  for (int i = 0; i < n; i++) {
    L &l = ls[gen(nl)];
    bool debug = flip(GEN, 1, 3);
    std::string mod = flip(GEN, 1, 2) ? "ripsPipe" : "persistence";
    int kind = (int)gen(8);
    std::string msg = kind == 0 ? "" : kind == 1 ? std::string(8100 + gen(300), (char)('a' + gen(26))) : kind == 2 ? "100% %s %n done" : kind == 3 ? "two\nlines\n" : strf("message %d", i);
    for (int a = kind == 4 ? (int)gen(300) : 0; a > 0; a--) msg += (char)('A' + gen(26));
    bool emits = !debug || l.dbg;
    std::string line = emits ? (debug ? "[DEBUG]\t[" : "[") + mod + "]:\t" + msg + "\n" : "";
    clear_faults();
    if (faulty && flip(ENV, 1, 3)) {
      int k = (int)env(4);
      if (k == 3) { int64_t used = 0; for (auto &p : fs_list()) used += (int64_t)fs_get(p).size(); disk_capacity(used + (int64_t)env(line.size() + 2)); }
      else {
        FaultSpec f; f.op = k == 0 ? OP_OPEN : k == 1 ? OP_WRITE : OP_CLOSE; f.path = ""; f.k = f.op == OP_WRITE ? (long)env(3) : 0; f.sticky = flip(ENV, 1, 2);
        f.act = flip(ENV, 1, 3) ? A_DIE : A_FAIL; f.err = f.op == OP_OPEN ? ERRS[env(4)] : ERRS[env(2)];
        add_fault(f);
      }
    }
    uint64_t before = faults_fired();
    Result r = run_sut([&] {
      if (!l.u) l.u = flip(GEN, 1, 8) && l.console && l.d == "0" ? new utils() : new utils(l.d, l.console ? "console" : FN[l.file]);
      if (debug) l.u->writeDebug(mod, msg); else l.u->writeLog(mod, msg);
    });
    bool fired = faults_fired() > before;
    clear_faults();
    fired_n += fired;
    std::string ctx = strf("message %d of %d (%s, %zu bytes%s); ", i + 1, n, debug ? "debug" : "log", msg.size(), fired ? ", a failure was injected" : "") + what;
    if (r.kind == Result::DIED) {
      // the process is gone; a new one starts with new loggers
      for (auto &x : ls) x.u = nullptr;
      deaths++; probe("process_death");
    } else if (!r.ok()) violation("log-crash", "logging " + r.str() + ": " + ctx);
    for (int f = 0; f < files; f++) {
      std::string now = fs_exists(FN[f]) ? fs_get(FN[f]) : "";
      bool mine = !l.console && f == l.file && emits;
      std::string rest;
      if (now.size() < expect[f].size() || now.compare(0, expect[f].size(), expect[f])) violation("log-destroyed", strf("what %s held before (%zu bytes) is not there any more: ", FN[f], expect[f].size()) + ctx);
      rest = now.substr(expect[f].size());
      if (!mine) { if (rest.size()) violation(debug && !emits ? "debug-logged" : "log-stray", strf("%zu bytes were appended to %s by a message that is not for it: ", rest.size(), FN[f]) + ctx); }
      else if (rest != line) {
        if (!fired) violation("log-message", strf("%zu of the %zu bytes of the message were stored without any failure: ", rest.size(), line.size()) + ctx);
        // the message, cut short; a library that tries again after a failed write may repeat its beginning
        std::vector<char> at(rest.size() + 1, 0); at[0] = 1;
        for (int piece = 0; piece < 3; piece++) for (size_t p = rest.size() + 1; p-- > 0;) if (at[p]) for (size_t q = 0; q < line.size() && p + q < rest.size() && rest[p + q] == line[q]; q++) at[p + q + 1] = 1;
        if (!at[rest.size()]) violation("log-message", "something else than the message was stored: '" + rest.substr(0, 80) + "': " + ctx);
        probe("message_cut_short");
      }
      expect[f] = now;
    }
    if (l.console && emits && r.ok()) con += line;
    state(fnv(expect[0]));
  }
  if (captured_stdout() != con) violation("console", strf("the console holds %zu bytes instead of %zu: ", captured_stdout().size(), con.size()) + what);
  if (fired_n) probe("failures_during_logging");
  sample(what + strf("; %d messages, %d with failures, %d process deaths", n, fired_n, deaths));
  nontrivial();
}
// a whole run with debugging on logs what the same run logs with debugging off, plus debug messages
static std::string mask(const std::string &l) {
  size_t a = l.find(" executed in "), b = l.find(" seconds");
  return a != std::string::npos && b != std::string::npos ? l.substr(0, a) + " executed in T" + l.substr(b) : l;
}
typedef std::map<std::string, std::string> Cfg15;
static void c15_runs() {
  static const char *TY[] = {"simplexTree", "simplexArrayList", "indSimplexTree"};
  static const char *MO[] = {"standard", "standard", "fast", "naive"};
  CloudOpt o; o.nmin = 1; o.nmax = 7; o.dmax = 3;
  std::string mode = MO[gen(4)];
  if (mode == "naive") { o.nmin = 40; o.nmax = 60; }
  Rows rows = gen_cloud(o), seen; CsvOpt c; c.decorate = flip(GEN, 1, 4);
  std::string csv = gen_csv(rows, seen, c), type = TY[gen(3)], init = flip(GEN, 1, 2) ? "older log\n" : "";
  std::string dim = mode == "naive" || flip(GEN, 1, 2) ? "1" : "2", eps = mode == "naive" ? "0.2" : flip(GEN, 1, 2) ? "1.3" : "5";
  bool falsey = flip(GEN, 1, 2);
  std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-e", eps, "-d", dim, "-m", mode, "-c", type};
  bool bykey = flip(GEN, 1, 2), console = flip(GEN, 1, 4);
  if (console) { args[3] = "console"; init = ""; }
  std::string what = "LHF " + join(args, " ") + " on " + show(seen, 8);
  sample(what + " with debugging off and on");
  auto go = [&](const char *dbg) {
    return in_process([&]() -> std::string {
      env_benign(E_CHUNK | E_MEM | E_TIME);
      fs_put("in.csv", csv); fs_mkdir("output"); if (init.size()) fs_put("out", init);
      auto a = args;
      if (dbg) { a.push_back(bykey ? "-x" : "--debug"); a.push_back(dbg); }
      Run u = run_lhf(a);
      if (u.r.kind != Result::RETURNED && u.r.kind != Result::EXITED) return "!" + u.r.str();
      if (console) {           // the console takes the messages, no file does
        if (fs_exists("console") || fs_exists("out")) return "?";
        std::string l;
        for (auto &x : split(u.out, '\n')) if (x.size() && x[0] == '[') l += x + "\n";
        return strf("%d\n", u.rc) + l + "\x01";
      }
      return strf("%d\n", u.rc) + (fs_exists("out") ? fs_get("out") : "") + "\x01" + u.out;
    });
  };
  std::string a = go(falsey ? "0" : nullptr), b = go("1");
  if (a[0] == '!' || b[0] == '!') violation("run-crash", "the run " + (a[0] == '!' ? a : b).substr(1) + ": " + what);
  if (a[0] == '?' || b[0] == '?') violation("console", "messages for the console are stored in a file: " + what);
  auto la = split(a.substr(0, a.find('\x01')), '\n'), lb = split(b.substr(0, b.find('\x01')), '\n');
  for (auto &l : la) if (l.find("[DEBUG]") != std::string::npos) violation("debug-logged", "a debug message is logged with debugging off: '" + l + "': " + what);
  if (a.substr(a.find('\x01')).find("[DEBUG]") != std::string::npos) violation("debug-logged", "a debug message is printed with debugging off: " + what);
  std::vector<std::string> x, y; size_t nd = 0;
  for (auto &l : la) x.push_back(mask(l));
  for (auto &l : lb) { if (l.find("[DEBUG]") == 0) nd++; else y.push_back(mask(l)); }
  if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; violation("log-differs", strf("apart from debug messages line %zu is '%s' with debugging off and '%s' with it on: ", i + 1, i < x.size() ? x[i].c_str() : "", i < y.size() ? y[i].c_str() : "") + what); }
  if (!nd) violation("debug-missing", "no debug message is logged with debugging on: " + what);
  if (console) { if (la.size() < 4) violation("console", strf("the console has %zu messages: ", la.size()) + what); probe("console_runs"); }
  if (init.size() && (la.size() < 2 || la[1] + "\n" != init)) violation("log-destroyed", "the run destroyed the older log: " + what);
  probe("whole_runs"); nontrivial();
}
// components driven by themselves, in any order: complexes (also before they have distances), stages and preprocessors
static void c15_components() {
  static const char *TY[] = {"simplexTree", "simplexArrayList", "indSimplexTree"};
  static const char *PI[] = {"distMatrix", "neighGraph", "rips", "fastPersistence"};
  static const char *PR[] = {"kmeans++", "denStream"};
  CloudOpt o; o.nmin = 1; o.nmax = 7; o.dmax = 3;
  Rows pts = gen_cloud(o);
  std::string type = TY[gen(3)], eps = flip(GEN, 1, 2) ? "1.3" : "5", init = flip(GEN, 1, 2) ? "older log\n" : "";
  int n = 1 + (int)gen(6);
  std::vector<int> ops; std::string what = type + " of " + show(pts) + ":";
  bool filled = false;
  for (int i = 0; i < n; i++) {
    int op = (int)gen(8);
    if (op == 3 && std::count(ops.begin(), ops.end(), 3)) op = 2;      // points are inserted once
    if (op >= 2 && op <= 5 && !filled) { ops.push_back(2); what += " distMatrix"; filled = true; if (op == 2) continue; }
    if (op == 4 || op == 5) { if (std::count(ops.begin(), ops.end(), 3) == 0) { ops.push_back(3); what += " neighGraph"; } }
    ops.push_back(op); what += std::string(" ") + (op == 0 ? "insert" : op == 1 ? "list" : op < 6 ? PI[op - 2] : PR[op - 6]);
  }
  auto go = [&](const char *dbg) {
    return in_process([&]() -> std::string {
      env_benign(E_CHUNK | E_MEM | E_TIME);
      if (init.size()) fs_put("log", init);
      fs_mkdir("output");
      Cfg15 cfg = {{"epsilon", eps}, {"dimensions", "1"}, {"debug", dbg}, {"outputFile", "log"}, {"complexType", type}, {"twist", "false"}, {"collapse", "false"}, {"upscale", "false"}, {"clusters", "2"}, {"iterations", "9"}, {"lambda", "0.25"}};
      Result r = run_sut([&] {
        pipePacket p(cfg, type);
        for (int op : ops) {
          if (op == 0) { std::vector<double> v(pts[0]); pipePacket q(cfg, type); q.complex->insert(v); }
          else if (op == 1) { pipePacket q(cfg, type == "simplexArrayList" ? "simplexTree" : type); if (type == "indSimplexTree") q.complex->getIndexEdges(1); else q.complex->getAllEdges(1); }
          else if (op < 6) { p.originalData = pts; basePipe *b = (new basePipe())->newPipe(PI[op - 2], type); if (b && b->configPipe(cfg)) p = b->runPipeWrapper(p); }
          else { pipePacket q(cfg, type); q.originalData = pts; preprocessor *b = (new preprocessor())->newPreprocessor(PR[op - 6]); if (b && b->configPreprocessor(cfg)) b->runPreprocessorWrapper(q); }
        }
      });
      if (!r.ok()) return "!" + r.str();
      return fs_exists("log") ? fs_get("log") : "";
    });
  };
  bool word = flip(GEN, 1, 2);
  std::string a = go(word ? "false" : "0"), b = go(word ? "true" : "1");
  sample(what);
  if ((a.size() && a[0] == '!') || (b.size() && b[0] == '!')) violation("run-crash", "the components' run " + (a.size() && a[0] == '!' ? a : b).substr(1) + ": " + what);
  std::vector<std::string> x, y; size_t nd = 0;
  for (auto &l : split(a, '\n')) { if (l.find("[DEBUG]") != std::string::npos) violation("debug-logged", "a debug message is logged with debugging off: '" + l + "': " + what); x.push_back(mask(l)); }
  for (auto &l : split(b, '\n')) { if (l.find("[DEBUG]") == 0) nd++; else y.push_back(mask(l)); }
  if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; violation("log-differs", strf("apart from debug messages line %zu is '%s' with debugging off and '%s' with it on: ", i + 1, i < x.size() ? x[i].c_str() : "", i < y.size() ? y[i].c_str() : "") + what); }
  // every stage and preprocessor tells its parameters, the distance stage the size of the matrix, and an empty tree that it has nothing to do
  size_t least = 0; for (int op : ops) if (op >= 2 || (op == 0 && type != "simplexArrayList") || (op == 1 && type == "indSimplexTree")) least++;
  if (nd < least) violation("debug-missing", strf("%zu debug messages are logged with debugging on, at least %zu are due: ", nd, least) + what);
  for (size_t i = 0, dm = 0, k = 0; i < ops.size(); i++) if (ops[i] == 2) {
    std::string sz = strf("%zu x %zu", pts.size(), pts.size());
    if (!dm++) for (auto &l : split(b, '\n')) if (l.find("[DEBUG]") == 0 && l.find(sz) != std::string::npos) k++;
    if (k < dm) violation("debug-missing", "the size of the distance matrix is not logged with debugging on: " + what);
  }
  if (init.size() && (a.compare(0, init.size(), init) || b.compare(0, init.size(), init))) violation("log-destroyed", "the components destroyed the older log: " + what);
  probe("components"); state(fnv(a)); nontrivial();
}
void check_C15() {
  int k = (int)gen(16);
  if (k <= 12) c15_loggers(); else if (k == 13) c15_runs(); else c15_components();
}
