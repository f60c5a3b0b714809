// Whole-program checks: C01, C02, C08, C13, C14, C16 run LHF's main() (or whole stages) inside the simulator.
#include "common.hpp"
#include <errno.h>
#include <algorithm>
#include "basePipe.hpp"
#include "pipePacket.hpp"
#include "preprocessor.hpp"
#include "readInput.hpp"
#include "simplexTree.hpp"
#include "writeOutput.hpp"
using namespace sim;
using namespace ck;

static const char *TYPES[] = {"simplexTree", "simplexArrayList", "indSimplexTree"};

struct StdRun {
  Rows rows; std::string csv; double eps; int dim; std::string type, mode, out, epsarg;
  std::vector<std::string> args;
};
double ck::pick_eps(const Rows &r, std::string &arg) {
  // around the distances of the cloud: below all, in between, above all, or exactly one of them
  double lo = 1e9, hi = 0; std::vector<double> ds;
  for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) { double d = dist(r[i], r[j]); ds.push_back(d); lo = std::min(lo, d); hi = std::max(hi, d); }
  double e = 5;
  int k = (int)gen(5);
  if (ds.size()) {
    if (k == 1) e = hi * 1.25 + 0.11;
    else if (k == 2) e = ds[gen(ds.size())] + 0.013;
    else if (k == 3) e = ds[gen(ds.size())];
    else if (k == 4) e = lo * 0.5;
  }
  arg = strf("%.4f", e);
  if (strtod(arg.c_str(), 0) <= 0) arg = "0.01";
  return strtod(arg.c_str(), 0);
}
static StdRun gen_std(int nmax3, int nmax2, bool allow_fast, bool allow_debug, bool allow_large = false) {
  StdRun s;
  int t = (int)gen(3);
  s.type = TYPES[t];
  s.mode = allow_fast && flip(GEN, 1, 5) ? "fast" : "standard";
  if (s.mode == "fast") s.type = "simplexTree";
  int dd = (int)gen(6);
  s.dim = dd == 0 ? 1 : dd < 4 ? 2 : 3;
  if (dd == 5 && flip(GEN, 1, 3)) s.dim = 4 + (int)flip(GEN, 1, 4);
  if (dd == 0 && flip(GEN, 1, 6)) { s.dim = 0; probe("dimension_0"); }
  CloudOpt o;
  o.nmin = 1;
  o.nmax = s.dim > 3 ? nmax3 - 1 : s.dim == 3 ? nmax3 : nmax2;
  if (s.type == "simplexArrayList") o.nmax = std::min(o.nmax, s.dim >= 3 ? 7 : 9);
  if (flip(GEN, 1, 2)) o.nmin = std::max(1, o.nmax - 4);
  o.dmax = 4;
  if (s.dim > 3 && s.type != "simplexArrayList" && flip(GEN, 1, 2)) { o.shape = 8; o.dmin = 4; o.nmin = o.nmax; }
  bool cross = allow_large && s.dim > 3 && s.type != "simplexArrayList" && flip(GEN, 1, 4);
  if (cross) {     // cycles of the highest degree asked for, up to H4 and H5
    s.dim = 5 + (int)flip(GEN, 1, 4);
    o.shape = 8; o.dmin = o.dmax = s.dim; o.nmin = o.nmax = 2 * s.dim; probe("cross_polytope_of_5_or_6_dimensions");
  }
  bool large = allow_large && flip(GEN, 1, 24);
  if (large) {
    if (s.dim >= 3) s.dim = 2;
    o.nmax = s.type == "simplexArrayList" ? (s.dim <= 1 ? 40 : 16) : s.dim <= 1 ? (g_tier == "thorough" ? 200 : 120) : 36;
    o.nmin = o.nmax / 2;
    probe("large_cloud");
  }
  bool huge = allow_large && flip(GEN, 1, 400);     // more points than a byte counts
  if (huge) { large = true; s.dim = (int)gen(2); if (s.type == "simplexArrayList") s.type = "simplexTree"; o.nmin = 240; o.nmax = 380; probe("more_points_than_a_byte_counts"); }
  bool dense = allow_large && !large && !cross && flip(GEN, 1, 300);     // long cycles among many edges: long columns to reduce
  if (dense) { s.dim = 2; if (s.type == "simplexArrayList") s.type = "indSimplexTree"; o.nmin = 24; o.nmax = 40; o.shape = 2; o.dmin = 2; o.dmax = 3; probe("long_columns"); }
  Rows r = gen_cloud(o);
  CsvOpt c;
  s.csv = gen_csv(r, s.rows, c);
  s.eps = pick_eps(s.rows, s.epsarg);
  if (cross && flip(GEN, 2, 3)) { double hi = 0; for (auto &a : s.rows) for (auto &b : s.rows) hi = std::max(hi, dist(a, b)); s.epsarg = strf("%.4f", hi * 1.1 + 0.01); s.eps = strtod(s.epsarg.c_str(), 0); }
  if (dense) {
    std::vector<double> ds;
    for (size_t i = 0; i < s.rows.size(); i++) for (size_t j = 0; j < i; j++) ds.push_back(dist(s.rows[i], s.rows[j]));
    std::sort(ds.begin(), ds.end());
    s.epsarg = strf("%.4f", ds[ds.size() * (20 + gen(40)) / 100] * 1.001 + 0.00007); if (strtod(s.epsarg.c_str(), 0) <= 0) s.epsarg = "0.01";
    s.eps = strtod(s.epsarg.c_str(), 0);
  }
  if (huge && flip(GEN, 1, 2)) large = false;
  if (large) {    // few enough simplices: epsilon near a small quantile of the distances
    std::vector<double> ds;
    for (size_t i = 0; i < s.rows.size(); i++) for (size_t j = 0; j < i; j++) ds.push_back(dist(s.rows[i], s.rows[j]));
    std::sort(ds.begin(), ds.end());
    double q = ds[ds.size() * (1 + gen(s.dim <= 1 ? 20 : 16)) / 60] * 1.001 + 0.00007;
    s.epsarg = strf("%.4f", q); if (strtod(s.epsarg.c_str(), 0) <= 0) s.epsarg = "0.01";
    s.eps = strtod(s.epsarg.c_str(), 0);
    size_t e = std::upper_bound(ds.begin(), ds.end(), s.eps) - ds.begin();
    if ((e > 2500 && !huge) || (s.dim == 2 && e > 260) || (s.type == "simplexArrayList" && s.dim == 2 && e > 60)) skip("too many edges");
  }
  s.out = flip(GEN, 1, 4) ? "res/out" : "out";
  s.args = {"-i", "in.csv", "-o", s.out, "-e", s.epsarg, "-d", std::to_string(s.dim), "-m", s.mode, "-c", s.type};
  if (allow_debug && flip(GEN, 1, 6)) { s.args.push_back("-x"); s.args.push_back("1"); }
  int form = (int)gen(12);      // the same run asked for in another way
  if (form == 11) { s.args.push_back("-p"); s.args.push_back(flip(GEN, 1, 2) ? "distMatrix.neighGraph.rips.fast" : "distMatrix.neighGraph.rips.fastPersistence"); probe("pipeline_spelled_out"); }
  else if (form == 10) for (size_t i = 0; i + 1 < s.args.size(); i += 2) {
    static const std::map<std::string, std::string> LONG = {{"-i", "--inputFile"}, {"-o", "--outputFile"}, {"-e", "--epsilon"}, {"-d", "--dimensions"}, {"-m", "--mode"}, {"-c", "--complexType"}, {"-x", "--debug"}};
    if (LONG.count(s.args[i])) s.args[i] = LONG.at(s.args[i]);
  } else if (form == 9) { for (size_t i = 0; i + 1 < s.args.size(); i += 2) if ((s.args[i] == "-m" && s.mode == "standard") || (s.args[i] == "-c" && s.type == "simplexTree") || (s.args[i] == "-d" && s.dim == 1)) { s.args.erase(s.args.begin() + (long)i, s.args.begin() + (long)i + 2); i -= 2; } }
  else if (form == 8) { for (auto &x : {std::string("-u"), std::string("false"), std::string("-l"), std::string(".5"), std::string("-t"), std::string("false")}) s.args.push_back(x); }
  return s;
}
static std::string describe(const StdRun &s) { return "LHF " + join(s.args, " ") + " on " + show(s.rows, 16); }

// C01: the barcode file is the Vietoris-Rips persistence of the input
void check_C01() {
  StdRun s = gen_std(9, 13, true, true, true);
  bool tie;
  if (eps_ambiguous(s.rows, s.eps, tie)) skip("distance within rounding of epsilon");
  if (tie) probe("eps_tie");
  bool pre = flip(GEN, 1, 6);
  if (pre) { for (auto &x : {std::string("-pre"), std::string("kmeans++"), std::string("-k"), std::to_string(1 + (int)gen(6)), std::string("-r"), std::to_string(flip(GEN, 1, 3) ? 1 : 250)}) s.args.push_back(x); probe("with_preprocessor"); }
  sample(describe(s));
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  fs_put("in.csv", s.csv);
  fs_mkdir("res");
  if (pre || flip(ENV, 1, 2)) fs_mkdir("output");
  if (flip(ENV, 1, 3)) { fs_put(s.out + ".csv", "dimension,birth,death\n0,0,1.000000\n9,9,9\n" + std::string(200, 'x')); fault("old_results_present"); }
  Run u = run_lhf(s.args);
  if (u.r.kind != Result::RETURNED && !(u.r.kind == Result::EXITED)) violation("run-" + std::string(u.r.kind == Result::HUNG ? "hang" : "crash"), "the run " + u.r.str() + ": " + describe(s));
  if (u.rc != 0) violation("run-status", strf("fault-free run ended with status %d: ", u.rc) + describe(s));
  if (!fs_exists(s.out + ".csv")) violation("no-barcode-file", "no barcode file after " + describe(s));
  if (pre) {
    // the points to compare with are the centroids: recomputed exactly from the labels
    Rows cf; std::vector<unsigned> lab;
    for (auto &l : split(fs_get("output/k-means++_centroid_output.csv"), '\n')) if (l.size()) cf.emplace_back();
    for (auto &l : split(fs_get("output/k-means++_label_output.csv"), '\n')) if (l.size()) lab.push_back((unsigned)strtoul(l.c_str(), 0, 10));
    if (lab.size() != s.rows.size()) violation("labels", strf("%zu labels for %zu points: ", lab.size(), s.rows.size()) + describe(s));
    Rows cen(cf.size(), std::vector<double>(s.rows[0].size(), 0)); std::vector<size_t> cnt(cf.size(), 0);
    for (size_t i = 0; i < lab.size(); i++) { if (lab[i] >= cf.size()) violation("labels", "a label without a centroid: " + describe(s)); cnt[lab[i]]++; for (size_t d = 0; d < cen[0].size(); d++) cen[lab[i]][d] += s.rows[i][d]; }
    for (size_t j = 0; j < cen.size(); j++) { if (!cnt[j]) skip("a centroid without points is known to six decimals only"); for (auto &x : cen[j]) x /= (double)cnt[j]; }
    s.rows = cen;
    for (size_t a = 0; a < cen.size(); a++) for (size_t b = 0; b < a; b++) if (std::fabs(dist(cen[a], cen[b]) - s.eps) < 1e-7) skip("distance within rounding of epsilon");
    bool t2; if (eps_ambiguous(s.rows, s.eps, t2)) skip("distance within rounding of epsilon");
  }
  std::string e = check_barcodes(fs_get(s.out + ".csv"), s.rows, s.eps, s.dim);
  if (e.size()) violation("wrong-barcodes", e + "; " + describe(s));
  std::vector<Bar> b; std::string pe;
  parse_barcodes(fs_get(s.out + ".csv"), b, pe);
  state(bars_hash(b));
  int h1 = 0, h2 = 0; for (auto &x : b) { h1 += x.d == 1; h2 += x.d == 2; }
  if (h1) probe("has_H1"); if (h2) probe("has_H2");
  for (auto &x : b) if (x.d > 2) { probe("has_H3_or_higher"); break; }
  if (s.rows.size() >= 3) nontrivial();
}


// ------------------------------------------------------------------ C02
static std::string bad_end(const Run &u) {
  if (u.r.kind == Result::RETURNED || u.r.kind == Result::EXITED) return "";
  return u.r.str();
}
// runs a standard run as a fresh simulated process with a freshly drawn environment
static std::string barcode_run(const std::string &csv, std::vector<std::string> args, const std::string &out, bool benign) {
  return in_process([&]() -> std::string {
    if (!benign) env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
    fs_put("in.csv", csv);
    fs_mkdir("res");
    if (!benign) {
      if (flip(ENV, 1, 2)) fs_mkdir("output");
      if (flip(ENV, 1, 4)) { fs_put(out + ".csv", "dimension,birth,death\n0,0,1.000000\n" + std::string(3000, '7') + "\n"); fault("old_results_present"); }
      if (flip(ENV, 1, 4)) { fs_put(out, "an old log\n"); fault("old_log_present"); }
      if (flip(ENV, 1, 4)) { args.push_back("-x"); args.push_back("1"); fault("debug_on"); }
    }
    Run u = run_lhf(args);
    std::string e = bad_end(u);
    if (e.size()) return "!the run " + e;
    if (u.rc != 0) return strf("!the run ended with status %d", u.rc);
    if (!fs_exists(out + ".csv")) return "!no barcode file";
    return "=" + fs_get(out + ".csv");
  });
}
static std::vector<std::string> sorted_bars(const std::string &f) {
  std::vector<std::string> l = split(f, '\n'), r;
  for (auto &x : l) {
    auto c = split(x, ',');
    if (c.size() == 3 && strtod(c[1].c_str(), 0) == strtod(c[2].c_str(), 0) && c[0] != "0") continue;   // zero length to six decimals
    r.push_back(x);
  }
  std::sort(r.begin(), r.end());
  return r;
}
static std::string first_difference(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  std::vector<std::string> x, y;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x));
  std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  return strf("%zu lines only in the first (%s), %zu only in the second (%s)", x.size(), x.size() ? x[0].c_str() : "-", y.size(), y.size() ? y[0].c_str() : "-");
}
void check_C02() {
  static const char *DIM[] = {"1", "2", "2", "3", "2", "3", "4"};
  std::string dim = DIM[gen(7)];
  if (dim == "1" && flip(GEN, 1, 5)) dim = "0";
  int t = (int)gen(3), t2 = (int)gen(3);
  bool big = g_tier == "thorough";
  CloudOpt o;
  o.nmin = 2; o.dmax = 5;
  o.nmax = dim < "2" ? (big ? 60 : 40) : dim == "2" ? (big ? 24 : 18) : dim == "4" ? 8 : 11;
  if (t == 1 || t2 == 1) o.nmax = std::min(o.nmax, dim < "2" ? 40 : dim == "2" ? 9 : 7);
  if (flip(GEN, 1, 2)) o.nmin = o.nmax / 2;
  Rows r = gen_cloud(o), seen, seen2;
  CsvOpt c; c.exact = true;
  std::string csv = gen_csv(r, seen, c);
  // variant
  Rows r2 = seen;
  bool permuted = flip(GEN, 2, 3);
  if (permuted) { for (size_t i = r2.size(); i > 1; i--) std::swap(r2[i - 1], r2[gen(i)]); if (r2 == seen) permuted = false; else probe("rows_permuted"); }
  std::string csv2 = flip(GEN, 1, 3) && !permuted ? csv : gen_csv(r2, seen2, c);
  std::string ea;
  double eps = pick_eps(seen, ea);
  bool tie; eps_ambiguous(seen, eps, tie);
  if (t != t2) { probe("types_differ"); if (tie) skip("distance equal to epsilon across representations"); }
  std::string out = flip(GEN, 1, 3) ? "res/b" : "out";
  bool fast = t == 0 && t2 == 0 && flip(GEN, 1, 4);
  std::vector<std::string> a1 = {"-i", "in.csv", "-o", "out", "-e", ea, "-d", dim, "-c", TYPES[t], "-m", "standard"};
  std::vector<std::string> a2 = {"--inputFile", "in.csv", "--outputFile", out, "--epsilon", ea, "--dimensions", dim, "--complexType", TYPES[t2], "--mode", fast ? "fast" : "standard"};
  std::string what = "LHF " + join(a1, " ") + " on " + show(seen) + (permuted ? " against a permutation of its rows" : " against the same rows") + " as " + TYPES[t2];
  sample(what);
  std::string f1 = barcode_run(csv, a1, "out", flip(ENV, 1, 4)), f2 = barcode_run(csv2, a2, out, false);
  if (f1[0] == '!') violation("run-failed", "first run: " + f1.substr(1) + "; " + what);
  if (f2[0] == '!') violation("run-failed", "second run: " + f2.substr(1) + "; " + what);
  state(fnv(f1));
  if (!permuted && t == t2) {
    probe("byte_comparison");
    if (f1 != f2) violation("not-identical", "the barcode files differ: " + first_difference(split(f1, '\n'), split(f2, '\n')) + "; " + what);
  } else {
    auto b1 = sorted_bars(f1), b2 = sorted_bars(f2);
    if (b1 != b2) violation("different-barcodes", "the barcodes differ: " + first_difference(b1, b2) + "; " + what);
  }
  if (f1.find("\n1,") != std::string::npos) probe("has_H1");
  if (f1.find("\n2,") != std::string::npos) probe("has_H2");
  if (seen.size() >= 3) nontrivial();
}

// ------------------------------------------------------------------ C08
static void reduced_stats(const std::vector<Rows> &part, const std::vector<std::string> &name, double eps, int dim, const std::string &what);
// stats: judge the statistics of the run (C13) instead of its barcodes (C08)
// faults: draw failures first; a run that then exits with status 0 must have done everything right (C16)
static std::string draw_run_faults(const std::string &out, size_t csv, unsigned long long na, size_t l, size_t b, size_t st, bool disk, const std::vector<uint64_t> &marks = {});
static void reduced_run(bool stats, bool faults = false) {
  CloudOpt o; o.nmin = 1; o.nmax = 16; o.dmax = 3;
  int dim = 1 + (int)gen(2);
  if (dim == 2) o.nmax = 12;
  if (flip(GEN, 1, 2)) o.nmin = 6;
  bool grid = flip(GEN, 1, 6);   // integers: everything is exact, also a distance of exactly twice the radius
  Rows r, seen;
  if (grid) { int g = 4 + (int)gen(20); size_t n = 2 + gen(11); for (size_t i = 0; i < n; i++) r.push_back({(double)gen((uint64_t)g)}); }
  else r = gen_cloud(o);
  bool many = !faults && flip(GEN, 1, g_tier == "thorough" ? 40 : 250);     // hundreds of clusters, or clusters of many points
  int pairs = 1;
  if (many) {
    grid = false; dim = 1; r.clear(); pairs = 1 + (int)gen(2);
    size_t n = pairs == 1 ? 200 + gen(120) : 256 + gen(300);
    for (size_t i = 0; i < n; i++) {
      double x = (double)(i / pairs % 20), y = (double)(i / pairs / 20), j = (double)gen(1u << 20) / (1u << 20) * 0.2;
      r.push_back({pairs > 1 && i % 2 ? r.back()[0] + 0.002 : x + j, y + j * 0.7});
    }
    if (flip(GEN, 1, 3)) for (size_t i = r.size() - 1; i > 0; i--) std::swap(r[i], r[gen(i + 1)]);
    if (flip(GEN, 1, 3)) for (int i = 0; i < 20; i++) r.push_back(r[gen(r.size())]);
    probe("hundreds_of_points");
  }
  CsvOpt c; c.decorate = flip(GEN, 1, 4);
  std::string csv = gen_csv(r, seen, c), ea;
  double eps = many ? 0 : pick_eps(seen, ea);
  size_t n = seen.size();
  int k = flip(GEN, 1, 6) ? (int)n + 1 + (int)gen(3) : 1 + (int)gen(5);
  if (many) {
    static const char *EA[] = {"0.5", "1.3", "1.71", "2.3"}; ea = EA[gen(4)]; eps = strtod(ea.c_str(), 0);
    k = flip(GEN, 1, 4) ? 2 + (int)gen(40) : pairs == 2 ? (int)n / 2 : (int)n + 1 - (int)gen(3);
  }
  int iters[] = {250, 1, 2, 40};
  int it = iters[gen(4)];
  std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-e", ea, "-d", std::to_string(dim), "-m", "reduced", "-k", std::to_string(k), "-r", std::to_string(it)};
  std::string what = "LHF " + join(args, " ") + " on " + show(seen);
  sample(what);
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  fs_put("in.csv", csv);
  fs_mkdir("output");
  if (faults) {
    std::string fd = draw_run_faults("out", csv.size(), 2000 + 400 * n, 6000, 2000, 2000, false);
    what += " with" + fd;
    sample(what);
  }
  Run u = run_lhf(args);
  if (faults) {
    fail_alloc(0, false);
    if (u.r.kind == Result::HUNG) violation("hang", "the run does not end: " + what);
    if (u.rc != 0) {
      if (!faults_fired()) violation("run-status", strf("a run that met no failure ended with status %d: ", u.rc) + what);
      probe("reduced_reported_failure"); nontrivial();
      return;
    }
    probe(faults_fired() ? "reduced_survived_faults" : "reduced_no_fault_fired");
    if (!fs_exists("output/k-means++_label_output.csv")) skip("no labels to judge by");
  }
  if (bad_end(u).size()) violation("run-crash", "the run " + u.r.str() + ": " + what);
  if (u.rc != 0) violation("run-status", strf("fault-free run ended with status %d: ", u.rc) + what);
  Rows cf = parse_rows(fs_get("output/k-means++_centroid_output.csv"));
  std::vector<unsigned> lab;
  for (auto &l : split(fs_get("output/k-means++_label_output.csv"), '\n')) if (l.size()) lab.push_back((unsigned)strtoul(l.c_str(), 0, 10));
  if (lab.size() != n) violation("labels", strf("%zu labels for %zu points: ", lab.size(), n) + what);
  size_t m = cf.size();
  Rows cen(m);
  bool empty = false;
  double near6 = 1e-6 * (1 + std::sqrt((double)seen[0].size()));   // two points equal to six decimals are nearer than this
  for (size_t j = 0; j < m; j++) {
    std::vector<double> s(seen[0].size(), 0); size_t cnt = 0;
    for (size_t i = 0; i < n; i++) if (lab[i] == j) { cnt++; for (size_t d = 0; d < s.size(); d++) s[d] += seen[i][d]; }
    if (!cnt) { empty = true; cen[j] = cf[j]; probe("empty_cluster"); continue; }
    for (auto &x : s) x /= (double)cnt;
    cen[j] = s;
    if (cf[j].size() != s.size() || dist(cf[j], s) > near6) violation("centroid", strf("centroid %zu is not the mean of its points: ", j) + what);
  }
  if (m > 256) probe("over_256_clusters");
  for (unsigned l : lab) if (l >= m) violation("labels", strf("label %u with %zu centroids: ", l, m) + what);
  double R = 0, slack = empty ? 2 * near6 : 1e-9;
  for (size_t i = 0; i < n; i++) R = std::max(R, dist(seen[i], cen[lab[i]]));
  bool exact = !empty;
  for (size_t i = 0; i < n; i++) for (double v : seen[i]) if (seen[i].size() > 1 || v != std::floor(v) || std::fabs(v) > 1000) exact = false;
  if (exact) { std::vector<size_t> cnt(m); for (unsigned l : lab) cnt[l]++; for (size_t x : cnt) if (x & (x - 1)) exact = false; }
  std::vector<Rows> part(m);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) {
    double d = dist(seen[i], cen[j]);
    if (lab[i] != j && std::fabs(d - 2 * R) < slack) { if (exact) probe("exactly_twice_the_radius"); else skip("distance within rounding of twice the radius"); }
    if (d < 2 * R || lab[i] == j) part[j].push_back(seen[i]);
  }
  std::vector<Rows> expect; std::vector<std::string> name;
  for (size_t j = 0; j < m; j++) if (part[j].size()) { expect.push_back(part[j]); name.push_back(strf("partition %zu of %zu points", j, part[j].size())); }
  expect.push_back(cen); name.push_back("the centroids");
  if (stats) {
    bool tie13; for (auto &x : expect) if (eps_ambiguous(x, eps, tie13) || tie13) skip("distance within rounding of epsilon");
    for (size_t a = 0; a < cen.size(); a++) for (size_t b = 0; b < a; b++) if (std::fabs(dist(cen[a], cen[b]) - eps) < (empty ? 2 * near6 : 1e-7)) skip("distance within rounding of epsilon");
    reduced_stats(expect, name, eps, dim, what);
    return;
  }
  const auto &h = fs_history("out.csv");
  if (h.size() != expect.size()) violation("result-count", strf("%zu barcode files were written for %zu partitions and the centroids: ", h.size(), expect.size() - 1) + what);
  bool tie, amb = false;
  size_t most = 0;
  for (size_t j = 0; j < expect.size(); j++) {
    bool isc = j + 1 == expect.size();
    if (eps_ambiguous(expect[j], eps, tie)) { amb = true; continue; }
    if (isc) {  // computed centroids may differ from ours in the last place
      bool close = false;
      for (size_t a = 0; a < cen.size(); a++) for (size_t b = 0; b < a; b++) if (std::fabs(dist(cen[a], cen[b]) - eps) < (empty ? 2 * near6 : 1e-7)) close = true;
      if (close) { amb = true; continue; }
    }
    std::string e = check_barcodes(h[j], expect[j], eps, dim, isc && empty ? 2e-6 + 2 * near6 : 1.6e-6);
    if (e.size()) violation(isc ? "wrong-centroid-barcodes" : "wrong-partition-barcodes", name[j] + ": " + e + "; " + what);
    most = std::max(most, expect[j].size());
    state(fnv(h[j]));
  }
  if (amb) probe("some_partition_ambiguous");
  if (m > 1) probe("several_partitions");
  std::string fin = fs_get("out.csv");
  if (fin != h.back()) violation("last-file", "the last barcode file is not the one left behind: " + what);
  if (m > 1 && most >= 3) nontrivial();
}

void check_C08() { reduced_run(false); }

// ------------------------------------------------------------------ C13
static bool stats_rows(const std::string &f, std::vector<std::vector<std::string>> &rows, std::string &err, bool header) {
  auto l = split(f, '\n');
  if (header) {
    if (l.empty() || l[0] != "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount") { err = "the statistics file has no header"; return false; }
    l.erase(l.begin());
  }
  if (l.empty() || l.back() != "") { err = "the last statistics row is not terminated"; return false; }
  l.pop_back();
  for (auto &x : l) rows.push_back(split(x, ','));
  return true;
}
static size_t vr_count(const Rows &p, double eps, int maxdim, bool closed) {
  size_t n = 0;
  for (auto &l : vr_simplices(p, eps, maxdim, closed)) n += l.size();
  return n;
}
// the log holds one line per stage, in order, with the time of its statistics row
static std::vector<std::pair<std::string, std::string>> logged_stages(const std::string &log) {
  std::vector<std::pair<std::string, std::string>> got;
  for (auto &l : split(log, '\n')) {
    size_t a = l.find(" executed in "), b = l.find(" seconds");
    if (a == std::string::npos || b == std::string::npos || l.find("[DEBUG]") == 0 || l.find("Pipeline ") == std::string::npos) continue;
    size_t n = l.find("Pipeline ") + 9;
    got.push_back({l.substr(n, a - n), l.substr(a + 13, b - a - 13)});
  }
  return got;
}
// the same stage with the same number of seconds, to the rounding of its six decimals
static bool same_stage(const std::pair<std::string, std::string> &a, const std::pair<std::string, std::string> &b) {
  double x = strtod(a.second.c_str(), 0), y = strtod(b.second.c_str(), 0);
  return a.first == b.first && std::fabs(x - y) <= 1.5e-6 + 1e-12 * std::fabs(x);
}
static std::string check_stage_log(const std::string &log, const std::vector<std::pair<std::string, std::string>> &want) {
  std::vector<std::pair<std::string, std::string>> got = logged_stages(log);
  if (got == want) return "";
  if (got.size() != want.size()) return strf("the log records %zu stages, %zu were executed", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) if (!same_stage(got[i], want[i])) return strf("stage %zu is logged as %s with %s seconds, its statistics row says %s with %s", i + 1, got[i].first.c_str(), got[i].second.c_str(), want[i].first.c_str(), want[i].second.c_str());
  return "";
}
#ifndef SIM_NO_WHITEBOX  // stages of its own need the interface of the stages as it is
struct ScriptPipe : basePipe {
  int64_t dur = 0; int steps = 0;
  pipePacket runPipe(pipePacket in) override {
    SimScope s;
    for (int i = 0; i <= steps; i++) {
      clock_advance(dur / (steps + 1));
      if (i < steps) { int64_t mag[] = {1000, 1000000, 1000000000ll, 7200ll * 1000000000, 86400ll * 3650 * 1000000000}; int64_t m = mag[env(5)]; clock_step_wall(flip(ENV, 1, 2) ? m : -m); }
    }
    return in;
  }
};
struct ScriptPre : preprocessor {
  int64_t dur = 0; int steps = 0;
  pipePacket runPreprocessor(pipePacket in) override {
    SimScope s;
    for (int i = 0; i <= steps; i++) {
      clock_advance(dur / (steps + 1));
      if (i < steps) { int64_t mag[] = {1000, 1000000, 1000000000ll, 7200ll * 1000000000, 86400ll * 3650 * 1000000000}; int64_t m = mag[env(5)]; clock_step_wall(flip(ENV, 1, 2) ? m : -m); }
    }
    return in;
  }
};
// a complex that claims to hold more bytes, vertices and simplices than it does
struct SizedTree : simplexTree {
  double extra = 0; int moreV = 0, moreS = 0;
  SizedTree(double e, int d) : simplexTree(e, std::vector<std::vector<double>>(), d) {}
  // whichever of the two a tree declares is the one overridden
  SizedTree *self() const { return const_cast<SizedTree *>(this); }
  double getSize() { return simplexTree::getSize() + extra; }
  double getSize() const { return self()->simplexTree::getSize() + extra; }
  int vertexCount() { return simplexTree::vertexCount() + moreV; }
  int vertexCount() const { return self()->simplexTree::vertexCount() + moreV; }
  int simplexCount() { return simplexTree::simplexCount() + moreS; }
  int simplexCount() const { return self()->simplexTree::simplexCount() + moreS; }
};
// a chain of stages whose durations are known exactly
static void c13_scripted() {
  CloudOpt o; o.nmin = 1; o.nmax = 7;
  Rows r = gen_cloud(o);
  std::string ea; double eps = pick_eps(r, ea);
  bool tie; if (eps_ambiguous(r, eps, tie) || tie) skip("distance within rounding of epsilon");
  int t = (int)gen(3), n = 1 + (int)gen(flip(GEN, 1, 40) ? 150 : 5), dim = 1 + (int)gen(2);
  struct St { int kind; int64_t dur; int steps; };
  std::vector<St> st;
  std::string desc;
  for (int i = 0; i < n; i++) {
    int64_t unit[] = {0, 1000, 1000000, 1000000000ll, 60ll * 1000000000};
    St s; s.kind = (int)gen(4); s.dur = unit[gen(5)] * (int64_t)gen(1000); s.steps = (int)gen(4);
    st.push_back(s);
    desc += strf(" %s(%.6fs,%d clock steps)", s.kind == 3 ? "pre" : s.kind == 2 ? "insert" : "stage", s.dur / 1e9, s.steps);
  }
  static const size_t DATA[] = {0, 0, 3, 124, 126, 20000, 124900, 125100, 300000};
  size_t data = DATA[gen(9)]; if (data) desc += strf(" with %zu coordinates of data", data);
  std::vector<double> extra;
  if (t == 0 && flip(GEN, 1, 3)) {
    static const double X[] = {0, 900, 1e3, 1e5, 1e6, 1e8, 1e9, 3e9, 5e9, 7e11};
    for (int i = 0; i < n; i++) extra.push_back(X[gen(10)] + (gen(2) ? (double)gen(2000) : 0));
    desc += ", a complex of"; for (double x : extra) desc += strf(" %.0f", x); desc += " more bytes";
  }
  std::vector<std::pair<int, int>> more(n);
  if (extra.size()) {
    static const int M[] = {0, 0, 250, 32000, 33000, 65600, 16777300, 2000000000};
    for (auto &x : more) { x.first = M[gen(7)]; x.second = M[gen(8)]; if (x.second > 30000) x.second += (int)gen(100000); desc += strf(" +%d/+%d", x.first, x.second); }
    desc += " more vertices and simplices";
  }
  sample("scripted stages:" + desc);
  std::vector<double> sizes, parts;
  env_benign(E_MEM);
  std::vector<std::string> bad;
  std::string stats; int inserted = 0; std::vector<int> ins;
  std::map<std::string, std::string> cfg = {{"epsilon", ea}, {"dimensions", std::to_string(dim)}, {"debug", "0"}, {"outputFile", "log"}};
  Result res = run_sut([&] {
    pipePacket p(cfg, TYPES[t]);
    SizedTree *big = nullptr;
    if (extra.size()) { p.complex = big = new SizedTree(eps, dim); big->setConfig(cfg); }
    size_t N = r.size();
    std::vector<std::vector<double>> D(N, std::vector<double>(N, 0));
    for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) D[i][j] = dist(r[i], r[j]);
    p.complex->setDistanceMatrix(D);
    if (data) { size_t h = data / 3; p.originalData = {std::vector<double>(h, 1.0), std::vector<double>(data - h, 2.0)}; }
    for (auto &s : st) {
      if (big) { big->extra = extra[sizes.size()]; big->moreV = more[sizes.size()].first; big->moreS = more[sizes.size()].second; }
      if (s.kind == 3) {
        ScriptPre x; x.procName = "PRE"; x.configured = true; x.dur = s.dur; x.steps = s.steps;
        p = x.runPreprocessorWrapper(p);
      } else {
        if (s.kind == 2 && inserted < (int)N) { std::vector<double> v = r[inserted]; p.complex->insert(v); inserted++; if (t == 1) p.complex->expandDimensions(dim); }
        ScriptPipe x; x.pipeType = "STAGE"; x.configured = true; x.ut = utils("0", "log"); x.dur = s.dur; x.steps = s.steps;
        p = x.runPipeWrapper(p);
      }
      ins.push_back(inserted); parts.push_back(p.complex->getSize()); sizes.push_back(8.0 * data + parts.back());
    }
    stats = p.stats;
  });
  if (!res.ok()) violation("run-crash", "running stages " + res.str() + ":" + desc);
  std::vector<std::vector<std::string>> rows; std::string err;
  if (!stats_rows(stats, rows, err, false)) violation("stats-format", err + ":" + desc);
  if (rows.size() != st.size()) violation("stats-rows", strf("%zu rows for %zu stages:", rows.size(), st.size()) + desc);
  std::vector<std::pair<std::string, std::string>> logged;
  for (auto &x : rows) if (x.size() == 6) logged.push_back({x[0], x[1]});
  std::string le = check_stage_log(fs_get("log"), logged);
  if (le.size()) violation("stage-log", le + ":" + desc);
  std::vector<std::string> told;
  for (auto &l : split(fs_get("log"), '\n')) { size_t a = l.find("Data size: "); if (a != std::string::npos) told.push_back(l.substr(a + 11)); }
  if (told.size() != logged.size()) violation("data-size", strf("the log tells the data size %zu times for %zu stages:", told.size(), logged.size()) + desc);
  for (size_t i = 0, k = 0; i < st.size(); i++) {
    if (rows[i].size() != 6) continue;
    const std::string &u = rows[i][3]; double f = u == "B" ? 1 : u == "KB" ? 1e3 : u == "MB" ? 1e6 : u == "GB" ? 1e9 : 0, v = strtod(rows[i][2].c_str(), 0);
    if (f == 0 || std::fabs(v * f - sizes[i]) > 1e-6 * f || (f > 1 && v < 1) || (f < 1e9 && v > 1000)) violation("data-size", strf("row %zu: data size %s %s of a packet of %.0f bytes:", i + 1, rows[i][2].c_str(), u.c_str(), sizes[i]) + desc);
    Rows in(r.begin(), r.begin() + ins[i]);
    double cx = parts[i] - (extra.size() ? extra[i] : 0), nsx = in.empty() ? 0 : vr_count(in, eps, dim, t == 1);
    if (cx < 8 * nsx || (ins[i] == 0 && cx != 0)) violation("data-size", strf("row %zu: data size %s %s with %zu coordinates and %d points in the complex:", i + 1, rows[i][2].c_str(), u.c_str(), data, ins[i]) + desc);
    if (told[k] != rows[i][2] + " " + u) violation("data-size", "the log says data size '" + told[k] + "', the statistics row " + rows[i][2] + " " + u + ":" + desc);
    k++;
    probe(f == 1 ? "size_B" : f == 1e3 ? "size_KB" : f == 1e6 ? "size_MB" : "size_GB");
  }
  for (size_t i = 0; i < st.size(); i++) {
    if (rows[i][0] != (st[i].kind == 3 ? "PRE" : "STAGE")) violation("stats-order", strf("row %zu is '%s':", i + 1, rows[i][0].c_str()) + desc);
    double el = rows[i].size() > 1 ? strtod(rows[i][1].c_str(), 0) : -1, d = st[i].dur / 1e9;
    if (el < d - 2e-6 || el > d + 1e-3 + d * 1e-9) violation("elapsed", strf("stage %zu took %.6f seconds, its row says %s:", i + 1, d, rows[i].size() > 1 ? rows[i][1].c_str() : "nothing") + desc);
    if (st[i].kind == 3) continue;
    if (rows[i].size() != 6) violation("stats-format", strf("row %zu has %zu columns:", i + 1, rows[i].size()) + desc);
    Rows sub(r.begin(), r.begin() + ins[i]);
    size_t want = sub.empty() ? 0 : vr_count(sub, eps, dim, t == 1);
    if (atol(rows[i][4].c_str()) != (long)sub.size() + more[i].first) violation("vertex-count", strf("row %zu: vertex count %s with %ld points in the complex:", i + 1, rows[i][4].c_str(), (long)sub.size() + more[i].first) + desc);
    if (atol(rows[i][5].c_str()) != (long)want + more[i].second) violation("simplex-count", strf("row %zu: simplex count %s, the complex has %ld:", i + 1, rows[i][5].c_str(), (long)want + more[i].second) + desc);
    state(fnv(rows[i][1] + rows[i][5]));
  }
  nontrivial();
}
#endif
static void reduced_stats(const std::vector<Rows> &part, const std::vector<std::string> &name, double eps, int dim, const std::string &what) {
  std::vector<std::vector<std::string>> rows; std::string err;
  if (!stats_rows(fs_get("out_stats.csv"), rows, err, true)) violation("stats-format", err + ": " + what);
  static const char *ST[] = {"DistMatrix", "neighGraph", "ripsPipe", "FastPersistence"};
  if (rows.size() != 1 + 4 * part.size()) violation("stats-rows", strf("%zu rows for a preprocessor and %zu rounds of four stages: ", rows.size(), part.size()) + what);
  if (rows[0][0] != "k-means++") violation("stats-order", "the first row is '" + rows[0][0] + "': " + what);
  std::vector<std::pair<std::string, std::string>> logged;
  for (size_t i = 1; i < rows.size(); i++) {
    size_t j = (i - 1) / 4, k = (i - 1) % 4;
    if (rows[i].size() != 6 || rows[i][0] != ST[k]) violation("stats-order", strf("row %zu is '%s', should be '%s' of %s: ", i + 1, rows[i][0].c_str(), ST[k], name[j].c_str()) + what);
    logged.push_back({rows[i][0], rows[i][1]});
    if (strtod(rows[i][1].c_str(), 0) < 0) violation("elapsed", strf("row %zu has elapsed time '%s': ", i + 1, rows[i][1].c_str()) + what);
    size_t v = k ? part[j].size() : 0, w = k ? vr_count(part[j], eps, dim, false) : 0;
    if (atol(rows[i][4].c_str()) != (long)v) violation("vertex-count", strf("row %zu (%s of %s): vertex count %s, should be %zu: ", i + 1, ST[k], name[j].c_str(), rows[i][4].c_str(), v) + what);
    if (atol(rows[i][5].c_str()) != (long)w) violation("simplex-count", strf("row %zu (%s of %s): simplex count %s, should be %zu: ", i + 1, ST[k], name[j].c_str(), rows[i][5].c_str(), w) + what);
  }
  std::string le = check_stage_log(fs_get("out"), logged);
  if (le.size()) violation("stage-log", le + ": " + what);
  probe("reduced_mode");
  state(fnv(fs_get("out_stats.csv")));
  nontrivial();
}
static Rows gen_stream(int nmin, int nmax);
// window modes: one stage, whose complex is that of the first full window
static void c13_windows() {
  bool naive = flip(GEN, 3, 4);
  size_t cap = naive ? 50 : 200;
  Rows r = naive ? gen_stream(1, 130) : gen_stream(150, 330), seen; CsvOpt c; c.decorate = flip(GEN, 1, 3);
  std::string csv = gen_csv(r, seen, c);
  Rows first(seen.begin(), seen.begin() + std::min(cap, seen.size()));
  static const char *EP[] = {"0.02", "0.07", "0.3", "0.000001"};
  std::string ea = EP[gen(4)]; double eps = strtod(ea.c_str(), 0);
  int dim = 1 + (int)gen(2);
  bool full = seen.size() >= cap, tie;
  if (full && (eps_ambiguous(first, eps, tie) || tie)) skip("distance within rounding of epsilon");
  if (full) { size_t e = 0; for (size_t a = 0; a < first.size(); a++) for (size_t b = 0; b < a; b++) e += dist(first[a], first[b]) < eps; if (e > 700) skip("too many edges"); if (e > 300) dim = 1; }
  std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-m", naive ? (flip(GEN, 1, 2) ? "naive" : "naivewindow") : (flip(GEN, 1, 2) ? "sw" : "slidingwindow"), "-e", ea, "-d", std::to_string(dim)};
  std::string what = "LHF " + join(args, " ") + strf(" on %zu points: ", seen.size()) + show(seen, 8);
  sample(what);
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_put("in.csv", csv); if (flip(ENV, 1, 2)) fs_mkdir("output");
  int64_t t0 = mono_now();
  Run u = run_lhf(args);
  double total = (mono_now() - t0) / 1e9;
  if (bad_end(u).size()) violation("run-crash", "the run " + u.r.str() + ": " + what);
  if (u.rc != 0) violation("run-status", strf("fault-free run ended with status %d: ", u.rc) + what);
  std::vector<std::vector<std::string>> rows; std::string err;
  if (!stats_rows(fs_get("out_stats.csv"), rows, err, true)) violation("stats-format", err + ": " + what);
  std::vector<std::string> names;       // the naive window builds its complex with two stages of its own
  if (naive && full) names = {"DistMatrix", "neighGraph"};
  names.push_back(naive ? "NaiveWindow" : "SlidingWindow");
  if (rows.size() != names.size()) violation("stats-rows", strf("%zu rows for %zu stages: ", rows.size(), names.size()) + what);
  size_t w = full ? vr_count(first, eps, dim, false) : 0;
  double inner = 0;
  for (size_t i = 0; i < rows.size(); i++) {
    if (rows[i].size() != 6) violation("stats-format", strf("row %zu has %zu columns: ", i + 1, rows[i].size()) + what);
    if (rows[i][0] != names[i]) violation("stats-order", "the row is '" + rows[i][0] + "', should be '" + names[i] + "': " + what);
    bool none = names[i] == "DistMatrix" || !full;
    if (atol(rows[i][4].c_str()) != (long)(none ? 0 : cap)) violation("vertex-count", names[i] + ": vertex count " + rows[i][4] + ": " + what);
    if (atol(rows[i][5].c_str()) != (long)(none ? 0 : w)) violation("simplex-count", names[i] + strf(": simplex count %s, should be %zu: ", rows[i][5].c_str(), none ? 0 : w) + what);
    double el = strtod(rows[i][1].c_str(), 0);
    if (el < 0 || el > total + 1e-5) violation("elapsed", names[i] + strf(": elapsed time %s in a run of %.6f seconds: ", rows[i][1].c_str(), total) + what);
    if (i + 1 < rows.size()) inner += el;
    else if (inner > el + 1e-5) violation("elapsed", strf("the stage took %s seconds, the stages inside it %.6f: ", rows[i][1].c_str(), inner) + what);
  }
  std::vector<std::pair<std::string, std::string>> logged;
  for (auto &x : rows) logged.push_back({x[0], x[1]});
  if (!naive && full) {                  // the sub-pipelines of the sliding window work on a copy and are logged only
    size_t runs = seen.size() / 100 - 2 + (seen.size() % 100 ? 1 : 0);
    std::vector<std::pair<std::string, std::string>> got = logged_stages(fs_get("out"));
    if (got.size() != 2 * runs + 1) violation("stage-log", strf("the log records %zu stages, %zu were executed: ", got.size(), 2 * runs + 1) + what);
    for (size_t i = 0; i + 1 < got.size(); i++) {
      if (got[i].first != got[i % 2].first || got[0].first == got[1].first) violation("stage-log", strf("stage %zu of the log is %s: ", i + 1, got[i].first.c_str()) + what);
      double el = strtod(got[i].second.c_str(), 0);
      if (el < 0) violation("elapsed", got[i].first + " is logged with " + got[i].second + " seconds: " + what);
      inner += el;
    }
    double el = strtod(rows[0][1].c_str(), 0);
    if (inner > el + 1e-5) violation("elapsed", strf("the stage took %s seconds, the stages inside it %.6f: ", rows[0][1].c_str(), inner) + what);
    if (!same_stage(got.back(), logged[0])) violation("stage-log", "the last stage of the log is " + got.back().first + " with " + got.back().second + " seconds, the statistics row says " + logged[0].second + ": " + what);
  } else {
    std::string le = check_stage_log(fs_get("out"), logged);
    if (le.size()) violation("stage-log", le + ": " + what);
  }
  int told = 0;
  for (auto &l : split(fs_get("out"), '\n')) {
    size_t a = l.find("evaluated "), b = a == std::string::npos ? a : l.find(" points", a);
    if (b == std::string::npos) continue;
    told++;
    if (l.substr(a + 10, b - a - 10) != std::to_string(seen.size())) violation("points-logged", "the log says '" + l + "': " + what);
  }
  if (told != 1) violation("points-logged", strf("the log says %d times how many points the stage has evaluated: ", told) + what);
  state(fnv(rows.back()[5])); probe(full ? "window_mode_full" : "window_mode_never_full");
  nontrivial();
}
void check_C13() {
#ifndef SIM_NO_WHITEBOX
  if (flip(GEN, 1, 2)) { c13_scripted(); return; }
#endif
  if (flip(GEN, 1, 24)) { c13_windows(); return; }
  if (flip(GEN, 1, 4)) { reduced_run(true); return; }
  StdRun s = gen_std(7, 10, true, true);
  bool tie; bool amb = eps_ambiguous(s.rows, s.eps, tie);
  if (amb || tie) skip("distance within rounding of epsilon");
  bool pre = flip(GEN, 1, 4);
  size_t distinct = std::set<std::vector<double>>(s.rows.begin(), s.rows.end()).size();
  int k = 1 + (int)gen(4);
  if (pre) { for (auto &x : {std::string("-pre"), std::string("kmeans++"), std::string("-k"), std::to_string(k)}) s.args.push_back(x); probe("with_preprocessor"); }
  std::string what = describe(s);
  sample(what);
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  fs_put("in.csv", s.csv); fs_mkdir("res"); fs_mkdir("output");
  if (flip(ENV, 1, 4)) { fs_put(s.out + "_stats.csv", "old\nold\n" + std::string(500, 'x')); fault("old_results_present"); }
  int64_t t0 = mono_now();
  Run u = run_lhf(s.args);
  double total = (mono_now() - t0) / 1e9;
  if (bad_end(u).size()) violation("run-crash", "the run " + u.r.str() + ": " + what);
  if (u.rc != 0) violation("run-status", strf("fault-free run ended with status %d: ", u.rc) + what);
  std::vector<std::vector<std::string>> rows; std::string err;
  std::string f = fs_get(s.out + "_stats.csv");
  if (!stats_rows(f, rows, err, true)) violation("stats-format", err + ": " + what);
  std::vector<std::string> names = {"DistMatrix", "neighGraph", "ripsPipe", "FastPersistence"};
  if (pre) names.insert(names.begin(), "k-means++");
  if (rows.size() != names.size()) violation("stats-rows", strf("%zu rows for %zu stages: ", rows.size(), names.size()) + what);
  double sum = 0;
  Rows cloud = s.rows;
  if (pre) cloud = parse_rows(fs_get("output/k-means++_centroid_output.csv"));
  bool closed = s.type == "simplexArrayList";
  for (size_t i = 0; i < rows.size(); i++) {
    if (rows[i][0] != names[i]) violation("stats-order", strf("row %zu is '%s', should be '%s': ", i + 1, rows[i][0].c_str(), names[i].c_str()) + what);
    double el = rows[i].size() > 1 ? strtod(rows[i][1].c_str(), 0) : -1;
    if (el < 0) violation("elapsed", strf("row %zu has elapsed time '%s': ", i + 1, rows[i].size() > 1 ? rows[i][1].c_str() : "") + what);
    sum += el;
    if (pre && i == 0) continue;
    if (rows[i].size() != 6) violation("stats-format", strf("row %zu has %zu columns: ", i + 1, rows[i].size()) + what);
    size_t stage = i - (pre ? 1 : 0);
    size_t v = stage == 0 ? 0 : pre ? std::min<size_t>(k, distinct) : cloud.size();
    if (atol(rows[i][4].c_str()) != (long)v) violation("vertex-count", strf("row %zu (%s): vertex count %s, should be %zu: ", i + 1, rows[i][0].c_str(), rows[i][4].c_str(), v) + what);
    // the array list holds edges only until it is expanded, and the last stage may look one dimension further
    size_t w = stage == 0 ? 0 : vr_count(cloud, s.eps, closed && stage == 1 ? 1 : std::max(1, s.dim), closed), w2 = w;
    if (closed && stage == 3) w2 = vr_count(cloud, s.eps, s.dim + 1, closed);
    if (pre) { bool t2; if (eps_ambiguous(cloud, s.eps, t2) || t2) continue; bool close = false; for (size_t a = 0; a < cloud.size(); a++) for (size_t b = 0; b < a; b++) if (std::fabs(dist(cloud[a], cloud[b]) - s.eps) < 2e-6 * (1 + std::sqrt((double)cloud[a].size()))) close = true; if (close) continue; }
    if (atol(rows[i][5].c_str()) != (long)w && atol(rows[i][5].c_str()) != (long)w2) violation("simplex-count", strf("row %zu (%s): simplex count %s, should be %zu: ", i + 1, rows[i][0].c_str(), rows[i][5].c_str(), w) + what);
  }
  std::vector<std::pair<std::string, std::string>> logged;
  for (auto &x : rows) if (x.size() == 6) logged.push_back({x[0], x[1]});
  std::string le = check_stage_log(fs_get(s.out), logged);
  if (le.size()) violation("stage-log", le + ": " + what);
  if (sum > total + 1e-5) violation("elapsed", strf("the stages' times add up to %.6f seconds in a run of %.6f: ", sum, total) + what);
  state(fnv(f));
  nontrivial();
}

// ------------------------------------------------------------------ C14
// all output of a run with elapsed times masked
static std::string mask_times(const std::string &path, const std::string &c) {
  std::string o;
  bool st = path.size() > 10 && path.substr(path.size() - 10) == "_stats.csv";
  for (auto &l : split(c, '\n')) {
    if (st) {
      auto f = split(l, ',');
      if (f.size() > 1) f[1] = "T";
      o += join(f, ",");
    } else {
      size_t a = l.find(" executed in "), b = l.find(" seconds");
      if (a != std::string::npos && b != std::string::npos) o += l.substr(0, a) + " executed in T" + l.substr(b);
      else o += l;
    }
    o += "\n";
  }
  return o;
}
struct Job { int kind; std::string csv; Rows seen; std::vector<std::string> args; double eps, lambda; int dim; std::string desc; };
static Rows gen_stream(int nmin, int nmax) {
  // a stream with drift, jumps and duplicates, low dimensional
  Rows r; int n = range(GEN, nmin, nmax), d = 1 + (int)gen(2);
  int style = (int)gen(4);
  std::vector<double> c(d, 0);
  for (int i = 0; i < n; i++) {
    if (style && flip(GEN, 1, 40)) for (auto &x : c) x += (double)gen(41) - 20;
    std::vector<double> p(d);
    for (int k = 0; k < d; k++) p[k] = c[k] + (style == 3 ? (double)gen(3) : (double)gen(1000) / 250.0);
    r.push_back(p);
  }
  return r;
}
static Job gen_job(int slow, int kind) {
  Job j; j.kind = (int)gen(8); if (kind >= 0) j.kind = kind; j.eps = 0; j.lambda = 0; j.dim = 1;
  if (j.kind == 2 && !slow) j.kind = 1;
  CsvOpt c; c.decorate = flip(GEN, 1, 4);
  switch (j.kind) {
    case 0: { StdRun s = gen_std(7, 9, true, true); j.csv = s.csv; j.args = s.args; j.seen = s.rows; break; }
    case 1: {
      Rows r = gen_stream(20, 170); j.csv = gen_csv(r, j.seen, c);
      j.args = {"-i", "in.csv", "-o", "out", "-m", flip(GEN, 1, 2) ? "naive" : "naivewindow", "-e", flip(GEN, 1, 2) ? "0.05" : "0.3", "-d", "1"}; break; }
    case 2: {
      Rows r = gen_stream(190, 320); j.csv = gen_csv(r, j.seen, c);
      j.args = {"-i", "in.csv", "-o", "out", "-m", flip(GEN, 1, 2) ? "sw" : "slidingwindow", "-e", "0.000001", "-d", "1"}; break; }
    case 3: { CloudOpt o; o.nmax = 30; Rows r = gen_cloud(o); j.csv = gen_csv(r, j.seen, c); break; }
    case 4: {
      Rows r = flip(GEN, 1, 2) ? gen_stream(1000, 1250) : gen_stream(25, 120); if (r.size() > 999) probe("denstream_beyond_initial_points"); j.csv = gen_csv(r, j.seen, c);
      j.args = {"-i", "in.csv", "-o", "out", "-m", "standard", "-pre", "denstream", "-e", flip(GEN, 1, 2) ? "0.7" : "2.5", "-d", "1"};
      if (flip(GEN, 2, 3)) { j.args.push_back("-x"); j.args.push_back("1"); }       // the dump shows the centres themselves
      static const char *LM[] = {"0.25", "", "0.05", "1"};
      if (int l = (int)gen(4); l != 1) { j.args.push_back(flip(GEN, 1, 2) ? "-l" : "--lambda"); j.args.push_back(LM[l]); }      // or the default, .25
      break; }
    case 6: case 7: {     // one cluster: nothing depends on the random numbers
      CloudOpt o; o.nmax = 10; Rows r = gen_cloud(o); j.csv = gen_csv(r, j.seen, c);
      std::string ea; pick_eps(j.seen, ea);
      j.args = {"-i", "in.csv", "-o", "out", "-m", j.kind == 6 ? "reduced" : "standard", "-pre", "kmeans++", "-k", "1", "-e", ea, "-d", flip(GEN, 1, 2) ? "1" : "2"};
      if (flip(GEN, 1, 2)) { j.args.push_back("-r"); j.args.push_back(flip(GEN, 1, 2) ? "250" : "3"); }
      break; }
    case 5: { Rows r = flip(GEN, 1, 3) ? gen_stream(1000, 1250) : gen_stream(10, 90); if (r.size() > 999) probe("denstream_beyond_initial_points"); j.seen = r; j.eps = 0.5 + (double)gen(6) * 0.4; j.lambda = 0.1 + (double)gen(4) * 0.2; break; }
  }
  static const char *nm[] = {"standard", "naive-window", "sliding-window", "reader+writer", "standard after DenStream", "DenStream", "reduced", "standard after k-means++"};
  j.desc = strf("%s(%zu points)", nm[j.kind], j.seen.size());
  if (j.kind == 0) j.desc += "[" + join(j.args, " ") + "]";
  probe(strf("job_%d", j.kind).c_str());
  return j;
}
static std::string do_job(const Job &j) {
  for (auto &f : fs_list()) fs_remove(f);
  fs_mkdir("res"); fs_mkdir("output");
  if (j.csv.size()) fs_put("in.csv", j.csv);
  std::string blob;
  if (j.kind == 3) {
    Rows got; bool w1 = false, w2 = false; std::vector<Rows> streamed(1);
    Result r = run_sut([&] {
      readInput ri; got = ri.readCSV("in.csv");
      if (ri.streamInit("in.csv")) { std::vector<double> v; while (ri.streamRead(v)) { streamed[0].push_back(v); v.clear(); } }
      writeOutput wo; w1 = wo.writeCSV(got, "out"); w2 = wo.writeMAT(got, "out");
    });
    blob += r.str() + strf(" %d %d ", w1, w2) + show(got, 1000) + show(streamed[0], 1000);
  } else if (j.kind == 5) {
    Rows out;
    Result r = run_sut([&] {
      std::map<std::string, std::string> cfg = {{"epsilon", strf("%.6f", j.eps)}, {"lambda", strf("%.6f", j.lambda)}, {"dimensions", "1"}, {"debug", "0"}, {"outputFile", "log"}};
      pipePacket p(cfg, "simplexTree");
      p.originalData = j.seen;
      preprocessor pp; preprocessor *d = pp.newPreprocessor("denStream");
      d->configPreprocessor(cfg);
      p = d->runPreprocessor(p);
      out = p.originalData;
    });
    blob += r.str() + " ";
    for (auto &row : out) { for (double x : row) blob += strf("%.17g,", x); blob += ";"; }
  } else {
    Run u = run_lhf(j.args);
    blob += u.r.str() + strf(" status %d\n", u.rc);
  }
  for (auto &f : fs_list()) {
    if (f == "in.csv") continue;
    blob += "#" + f + "\n" + mask_times(f, fs_get(f));
  }
  return blob;
}
static void draw_faults(const std::vector<std::string> &paths, int nf, long maxk, bool alloc, uint64_t allocs) {
  static const int errs[] = {EIO, ENOSPC, EACCES, EMFILE};
  for (int i = 0; i < nf; i++) {
    int kind = (int)env(alloc ? 6 : 5);
    if (kind == 4) { disk_capacity((int64_t)env(4000)); continue; }
    if (kind == 5) { fail_alloc(1 + (int64_t)env(std::max<uint64_t>(1, allocs)), flip(ENV, 1, 4)); continue; }
    FaultSpec f;
    f.op = kind; f.path = env(4) == 3 ? "" : paths[env(paths.size())];
    f.k = (long)env(env(2) ? maxk : 2); f.sticky = flip(ENV, 1, 2); f.act = A_FAIL;
    f.err = kind == OP_OPEN ? errs[env(4)] : kind == OP_READ ? EIO : errs[env(2)];
    add_fault(f);
  }
}
void check_C14() {
  int n = 2 + (int)gen(flip(GEN, 1, 12) ? 9 : 3);
  int slow = flip(GEN, 1, 3);
  std::vector<Job> jobs;
  std::string what;
  for (int i = 0; i < n; i++) {
    if (i > 0 && flip(GEN, 1, 4)) jobs.push_back(jobs[gen(i)]);
    else jobs.push_back(gen_job(slow, i > 0 && flip(GEN, 1, 3) ? jobs[gen(i)].kind : -1));      // often the same kind with other arguments
    what += (i ? ", then " : "") + jobs.back().desc;
  }
  sample(what);
  std::vector<std::string> alone;
  for (int i = 0; i < n; i++) {
    alone.push_back(in_process([&] { env_benign(E_CHUNK | E_MEM | E_TIME); return do_job(jobs[i]); }));
    if (alone[i].find("did not terminate") != std::string::npos) skip("a run does not terminate on its own");
  }
  env_benign(E_CHUNK | E_MEM | E_TIME);
  int failed = 0;
  for (int i = 0; i < n; i++) {
    bool fail = i + 1 < n && flip(ENV, 1, 3);
    if (fail) {
      draw_faults({"in.csv", "out.csv", "out_stats.csv", "out"}, 1 + (int)env(2), 40, true, 3000);
      do_job(jobs[i]);
      clear_faults();
      failed++;
      what += strf(" (run %d with injected faults)", i + 1);
      probe("earlier_run_faulted");
      continue;
    }
    std::string b = do_job(jobs[i]);
    state(fnv(b));
    if (b != alone[i]) {
      size_t k = 0; while (k < b.size() && k < alone[i].size() && b[k] == alone[i][k]) k++;
      size_t from = k > 60 ? k - 60 : 0;
      violation("influenced", strf("run %d (%s) gives '...%s' here and '...%s' alone; runs: ", i + 1, jobs[i].desc.c_str(), b.substr(from, 160).c_str(), alone[i].substr(from, 160).c_str()) + what);
    }
  }
  nontrivial();
}

// ------------------------------------------------------------------ C16
static std::string mark_text(uint64_t since) { std::string t; for (auto m : alloc_marks(since)) t += strf(" %llu", (unsigned long long)m); return t; }
static std::vector<uint64_t> read_marks(const std::string &line) {       // after the four numbers
  std::vector<uint64_t> r; auto f = split(line, ' ');
  for (size_t i = 4; i < f.size(); i++) if (f[i].size()) r.push_back(strtoull(f[i].c_str(), 0, 10));
  return r;
}
static std::string draw_run_faults(const std::string &out, size_t csv, unsigned long long na, size_t l, size_t b, size_t st, bool disk, const std::vector<uint64_t> &marks) {
  int nf = flip(ENV, 1, 10) ? 0 : 1 + (int)env(3);
  const std::vector<std::string> paths = {out + ".csv", out + "_stats.csv", "in.csv", out};
  std::string fd;
  for (int i = 0; i < nf; i++) {
    int k = (int)env(7);
    if (k == 5 && !disk) k = 6;
    static const int errs[] = {EIO, ENOSPC, EACCES, EMFILE};
    if (k == 5) {
      int64_t cap = (int64_t)csv + (int64_t)env(l + b + st + 2);
      disk_capacity(cap); fd += strf(" disk of %lld bytes;", (long long)cap);
    } else if (k >= 6) {
      int64_t a; bool sticky = flip(ENV, 1, 4);
      if (marks.size() && flip(ENV, 1, 2)) {      // each phase of the run equally often, however many allocations it makes
        size_t i = env(marks.size() + 1); uint64_t lo = i ? marks[i - 1] : 0, hi = i < marks.size() ? marks[i] : na;
        a = 1 + (int64_t)lo + (int64_t)env(hi > lo ? hi - lo : 1); probe("allocation_fails_in_drawn_phase");
      } else a = 1 + (int64_t)env(na);
      fail_alloc(a, sticky); fd += strf(" allocation %lld of %llu fails%s;", (long long)a, na, sticky ? " and all after" : "");
    } else {
      FaultSpec f;
      f.op = k == 4 ? OP_READ : k; f.path = f.op == OP_READ ? "in.csv" : paths[env(4)];
      f.k = f.path == out ? (long)env(14) : (long)env(f.op == OP_WRITE || f.op == OP_READ ? 4 : 1);
      f.sticky = flip(ENV, 1, 3); f.act = A_FAIL;
      f.err = f.op == OP_OPEN ? errs[env(4)] : f.op == OP_READ ? EIO : errs[env(2)];
      add_fault(f);
      static const char *on[] = {"open", "read", "write", "close"};
      fd += strf(" %s number %ld of %s fails%s;", on[f.op], f.k + 1, f.path.c_str(), f.sticky ? " and all after" : "");
    }
  }
  return fd;
}
// the window modes under failures: nothing to evaluate is a failure, success leaves complete files
static void window_exit() {
  bool naive = flip(GEN, 1, 2);
  static const int NN[] = {0, 1, 20, 49, 50, 51, 70, 120}, NS[] = {0, 1, 40, 199, 200, 201, 203, 220};
  int n = naive ? NN[gen(8)] : flip(GEN, 1, 3) ? NS[gen(8)] : (int)gen(60);
  Rows r, seen; for (int i = 0; i < n; i++) r.push_back({(double)gen(1u << 20) / 1024, (double)gen(1u << 20) / 1024});
  CsvOpt c; c.decorate = flip(GEN, 1, 3);
  std::string csv = n ? gen_csv(r, seen, c) : "";
  std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-m", naive ? (flip(GEN, 1, 2) ? "naive" : "naivewindow") : (flip(GEN, 1, 2) ? "sw" : "slidingwindow"), "-e", "0.000001", "-d", "1"};
  std::string what = strf("LHF %s on a stream of %zu points", join(args, " ").c_str(), seen.size());
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_mkdir("output");
  if (n) fs_put("in.csv", csv);
  else {
    int v = (int)gen(4);
    if (v == 1) fs_put("in.csv", ""); else if (v == 2) fs_put("in.csv", "\n  \n\r\n"); else if (v == 3) fs_mkdir("in.csv");
    what += " (variant " + std::to_string(v) + ")";
    probe("window_no_input");
  }
  std::string fd = n ? draw_run_faults("out", csv.size(), 500 + 300 * (unsigned long long)n, 1000, 30, 200, true) : "";
  if (fd.size()) what += " with" + fd;
  sample(what);
  Run u = run_lhf(args);
  fail_alloc(0, false);
  if (u.r.kind == Result::HUNG) violation("hang", "the run does not end: " + what);
  bool fired = faults_fired() > 0;
  if (!n) { if (u.rc == 0) violation("success-without-input", "the run found no input and exits with status 0: " + what); nontrivial(); return; }
  if (u.rc != 0) {
    if (!fired) violation("run-status", strf("a run that met no failure ended with status %d: ", u.rc) + what);
    probe("window_reported_failure"); nontrivial(); return;
  }
  if (fired) { probe("window_survived_faults"); nontrivial(); }
  if (fs_get("out.csv") != "dimension,birth,death\n") violation("false-success", "exit status 0 but the barcode file is not complete: " + what);
  std::vector<std::vector<std::string>> rows; std::string err, sf = fs_get("out_stats.csv");
  if (!stats_rows(sf, rows, err, true)) violation("false-success", "exit status 0 but " + err + ": " + what);
  size_t want = naive && seen.size() >= 50 ? 3 : 1;
  bool ok = rows.size() == want || (fired && rows.size() == 1);
  for (auto &x : rows) if (x.size() != 6 || x[5].empty()) ok = false;
  if (!ok) violation("false-success", strf("exit status 0 but the statistics file has %zu rows: ", rows.size()) + what);
  state(fnv(sf.substr(66, 20)));
}
// a run with a preprocessor under failures: success means the results of the same run without any
static void pre_exit() {
  bool km = flip(GEN, 1, 2);
  Rows r, seen;
  if (km) { CloudOpt o; o.nmax = 12; r = gen_cloud(o); }
  else if (flip(GEN, 1, 15)) { r = gen_stream(1000, 1150); probe("denstream_beyond_initial_points"); }
  else if (flip(GEN, 1, 2)) r = gen_stream(25, 120);
  else { CloudOpt o; o.nmin = 20; o.nmax = 80; o.dmax = 2; o.shape = 5; r = gen_cloud(o); }
  CsvOpt c; c.decorate = flip(GEN, 1, 4);
  std::string csv = gen_csv(r, seen, c), ea = flip(GEN, 1, 2) ? "2.5" : "0.7";
  if (km) pick_eps(seen, ea);
  static const char *MD[] = {"standard", "fast", "reduced"};
  std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-m", MD[gen(3)], "-pre", km ? "kmeans++" : "denstream", "-e", ea, "-d", flip(GEN, 1, 2) ? "1" : "2"};
  if (km) { args.push_back("-k"); args.push_back("1"); }      // nothing depends on the random numbers
  if (!km) args[5] = MD[gen(2)];
  if (flip(GEN, 1, 6)) { args.push_back("-x"); args.push_back("1"); }
  std::string what = strf("LHF %s on %zu points", join(args, " ").c_str(), seen.size());
  env_benign(E_CHUNK | E_MEM | E_TIME);
  auto all = [] { std::string b; for (auto &f : fs_list()) if (f.find("_stats.csv") != std::string::npos || (f.size() > 4 && f.compare(0, 3, "out") == 0 && f.compare(0, 4, "outp") != 0 && f != "out")) b += "#" + f + "\n" + mask_times(f, fs_get(f)); return b; };
  std::string dry = in_process([&]() -> std::string {
    fs_put("in.csv", csv); fs_mkdir("output");
    uint64_t a = allocs_so_far();
    Run u = run_lhf(args);
    if (bad_end(u).size() || u.rc != 0) return strf("! %s, status %d", u.r.str().c_str(), u.rc);
    uint64_t n = allocs_so_far() - a; std::string m = mark_text(a);
    return strf("%llu %zu %zu %zu", (unsigned long long)n, fs_get("out").size(), fs_get("out.csv").size(), fs_get("out_stats.csv").size()) + m + "\n" + all();
  });
  bool none = dry[0] == '!';
  if (none && km) violation("run-status", "fault-free run " + dry.substr(1) + ": " + what);
  if (none) { probe("no_centres"); skip("density clustering leaves nothing to evaluate"); }
  unsigned long long na; size_t l, b, st, nl = dry.find('\n');
  sscanf(dry.c_str(), "%llu %zu %zu %zu", &na, &l, &b, &st);
  fs_put("in.csv", csv); if (!flip(ENV, 1, 4)) fs_mkdir("output");
  std::string fd = draw_run_faults("out", csv.size(), na, l, b, st, true, read_marks(dry.substr(0, nl)));
  sample(what + " with" + (fd.size() ? fd : " no faults"));
  Run u = run_lhf(args);
  fail_alloc(0, false);
  if (u.r.kind == Result::HUNG) violation("hang", "the run does not end with" + fd + " " + what);
  if (u.rc != 0) {
    if (!faults_fired()) violation("run-status", strf("a run that met no failure ended with status %d: ", u.rc) + what);
    probe("preprocessed_run_reported_failure"); nontrivial(); return;
  }
  if (faults_fired()) { probe("preprocessed_run_survived_faults"); nontrivial(); }
  std::string got = all(), want = dry.substr(nl + 1);
  if (got != want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t q = i < 40 ? 0 : i - 40;
    violation("false-success", "exit status 0 but the results are not those of the same run without failures: '" + got.substr(q, 80) + "' instead of '" + want.substr(q, 80) + "'; with" + fd + " " + what);
  }
  state(fnv(got.substr(0, 200)) + u.rc);
}
void check_C16() {
  if (flip(GEN, 1, 12)) { window_exit(); return; }
  if (flip(GEN, 1, 14)) { pre_exit(); return; }
  if (flip(GEN, 1, 6)) { reduced_run(false, true); return; }
  StdRun s = gen_std(6, 9, true, true);
  bool tie;
  if (eps_ambiguous(s.rows, s.eps, tie)) skip("distance within rounding of epsilon");
  std::string what = describe(s);
  int shape = (int)gen(12);     // 9: there is no usable input, 10: a name that does not exist
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  if (shape == 9) {
    int v = (int)gen(4);
    fs_mkdir("res");
    if (v == 1) fs_put("in.csv", ""); else if (v == 2) fs_put("in.csv", "\n  \n\r\n"); else if (v == 3) fs_mkdir("in.csv");
    probe("no_input");
    sample("no input (variant " + std::to_string(v) + "): " + what);
    Run u = run_lhf(s.args);
    if (u.r.kind == Result::HUNG) violation("hang", "the run does not end without input: " + what);
    if (u.rc == 0) violation("success-without-input", "the run found no input and exits with status 0: " + what);
    nontrivial();
    return;
  }
  if (shape == 10) {
    static const std::vector<std::string> ST = {"distMatrix", "neighGraph", "rips", "fastPersistence"}, BAD = {"distmatrix", "neighborGraph", "Rips", "fastpersistence", "persistent", "ripsPipe", "unknown"}, PRE = {"kmeans--", "kmean", "DENSTREAM", "dbscan", "unknown"};
    if (flip(GEN, 1, 3)) { s.args.push_back("-pre"); s.args.push_back(PRE[gen(PRE.size())]); if (flip(GEN, 1, 2)) { s.args.push_back("-m"); s.args.push_back("reduced"); } }
    else {
      std::vector<std::string> st = ST; size_t i = gen(5), b = gen(BAD.size());
      if (i == 4) st.push_back(BAD[b]); else if (flip(GEN, 1, 3)) st.insert(st.begin() + (long)i, BAD[b]); else st[i] = BAD[b];
      for (size_t j = 0; j + 1 < s.args.size(); j++) if (s.args[j] == "-p") { s.args.erase(s.args.begin() + (long)j, s.args.begin() + (long)j + 2); break; }
      s.args.push_back("-p"); s.args.push_back(join(st, "."));
    }
    what = describe(s);
    fs_put("in.csv", s.csv); fs_mkdir("res");
    probe("unknown_name");
    sample(what);
    Run u = run_lhf(s.args);
    if (u.r.kind == Result::HUNG) violation("hang", "the run does not end: " + what);
    if (u.rc == 0) violation("success-with-unknown-name", "the run was asked for something that does not exist and exits with status 0: " + what);
    nontrivial();
    return;
  }
  auto setup = [&] { fs_put("in.csv", s.csv); fs_mkdir("res"); if (flip(ENV, 1, 4)) { fs_put(s.out + ".csv", "dimension,birth,death\n0,0,1.000000\n"); fault("old_results_present"); } };
  // length of the run, from a copy of this process
  std::string dry = in_process([&]() -> std::string {
    fs_put("in.csv", s.csv); fs_mkdir("res");
    uint64_t a = allocs_so_far();
    Run u = run_lhf(s.args);
    if (bad_end(u).size() || u.rc != 0) return strf("! %s, status %d", u.r.str().c_str(), u.rc);
    uint64_t n = allocs_so_far() - a; std::string m = mark_text(a);
    return strf("%llu %zu %zu %zu", (unsigned long long)n, fs_get(s.out).size(), fs_get(s.out + ".csv").size(), fs_get(s.out + "_stats.csv").size()) + m;
  });
  if (dry[0] == '!') violation("run-status", "fault-free run " + dry.substr(1) + ": " + what);
  unsigned long long na; size_t l, b, st;
  sscanf(dry.c_str(), "%llu %zu %zu %zu", &na, &l, &b, &st);
  setup();
  std::string fd = draw_run_faults(s.out, s.csv.size(), na, l, b, st, true, read_marks(dry));
  sample(what + " with" + (fd.size() ? fd : " no faults"));
  Run u = run_lhf(s.args);
  fail_alloc(0, false);
  if (u.r.kind == Result::HUNG) violation("hang", "the run does not end with" + fd + " " + what);
  bool fired = faults_fired() > 0;
  if (u.rc != 0) {
    if (!fired) violation("run-status", strf("a run that met no failure ended with status %d: ", u.rc) + what);
    probe(u.r.kind == Result::RETURNED ? "reported_failure" : "abnormal_end");
    nontrivial();
    return;
  }
  if (fired) { probe("faults_survived"); nontrivial(); }
  std::string e = fs_exists(s.out + ".csv") ? check_barcodes(fs_get(s.out + ".csv"), s.rows, s.eps, s.dim) : "there is no barcode file";
  if (e.size()) violation("false-success", "exit status 0 but " + e + "; with" + fd + " " + what);
  std::vector<std::vector<std::string>> rows; std::string err;
  std::string sf = fs_get(s.out + "_stats.csv");
  if (!stats_rows(sf, rows, err, true)) violation("false-success", "exit status 0 but " + err + "; with" + fd + " " + what);
  bool ok = rows.size() == 4;
  for (auto &r : rows) if (r.size() != 6 || r[5].empty()) ok = false;
  if (!ok) violation("false-success", "exit status 0 but the statistics file is not complete; with" + fd + " " + what);
  state(fnv(sf.substr(0, 20)) + u.rc);
}

// ------------------------------------------------------------------ C20: dumps of the stages

static bool near6(double printed, double v) { return std::fabs(printed - v) <= 1e-5 * std::fabs(v) + 1e-12; }
// draws failures of some dump files; their paths go to `hit`
static std::string dump_faults(const std::vector<std::string> &paths, std::set<std::string> &hit) {
  std::string d;
  int n = (int)env(4);
  static const int errs[] = {EIO, ENOSPC, EACCES};
  for (int i = 0; i < n; i++) {
    FaultSpec f; static const int ops[] = {OP_OPEN, OP_WRITE, OP_CLOSE}; static const char *on[] = {"open", "write", "close"};
    int k = (int)env(3);
    f.op = ops[k]; f.path = paths[env(paths.size())]; f.k = f.op == OP_WRITE ? (long)env(3) : 0; f.sticky = flip(ENV, 1, 2); f.act = A_FAIL; f.err = errs[env(3)];
    add_fault(f); hit.insert(f.path);
    d += strf(" %s number %ld of %s fails%s;", on[k], f.k + 1, f.path.c_str(), f.sticky ? " and all after" : "");
  }
  return d;
}
static std::string check_simplex_dump(const std::string &f, const Rows &rows, double eps, int dim, bool closed, bool edges_only) {
  auto want = vr_simplices(rows, eps, std::max(1, dim), closed);   // edges are always there
  std::map<std::vector<unsigned>, double> m;
  for (auto &l : want) for (auto &s : l) m[s.v] = s.w;
  std::set<std::vector<unsigned>> got;
  for (auto &l : split(f, '\n')) {
    if (l.empty()) continue;
    auto c = split(l, ',');
    std::vector<unsigned> v; for (size_t i = 0; i + 1 < c.size(); i++) v.push_back((unsigned)strtoul(c[i].c_str(), 0, 10));
    std::sort(v.begin(), v.end());
    auto it = m.find(v);
    if (it == m.end()) return "the line '" + l + "' is no simplex of the complex";
    if (!near6(strtod(c.back().c_str(), 0), it->second)) return "the line '" + l + strf("' should have weight %.9g", it->second);
    if (!got.insert(v).second) return "the simplex of the line '" + l + "' is listed twice";
  }
  for (auto &x : m) if ((edges_only ? x.first.size() == 2 : true) && !got.count(x.first)) { std::string n; for (auto i : x.first) n += strf("%u,", i); return "the simplex " + n + strf("%.6g is missing", x.second); }
  return "";
}
static void dump_stages() {
  StdRun s = gen_std(6, 10, true, false);
  bool tie; bool amb = eps_ambiguous(s.rows, s.eps, tie);
  if (amb || tie) skip("distance within rounding of epsilon");
  s.args.push_back("-x"); s.args.push_back("1");
  std::string what = describe(s);
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  fs_put("in.csv", s.csv); fs_mkdir("res");
  bool dir = !flip(ENV, 1, 8); if (dir) fs_mkdir("output"); else fault("no_dump_directory");
  const std::vector<std::string> P = {"output/DistMatrix_output.csv", "output/neighGraph_output.csv", "output/ripsPipe_output.csv", "output/FastPersistence_bettis_output.csv", "output/tArray.csv"};
  if (dir && flip(ENV, 1, 3)) { for (auto &p : P) fs_put(p, "old,dump\n" + std::string(4000, '8') + "\n"); fault("old_dumps_present"); }
  std::set<std::string> hit;
  std::string fd = flip(ENV, 1, 2) ? dump_faults(P, hit) : "";
  if (fd.size()) what += " with" + fd;
  sample(what);
  Run u = run_lhf(s.args);
  if (bad_end(u).size()) violation("run-crash", "the run " + u.r.str() + ": " + what);
  if (u.rc != 0) violation("dump-failure-spreads", strf("the run ends with status %d: ", u.rc) + what);
  std::string bars = fs_get(s.out + ".csv");
  std::string e = check_barcodes(bars, s.rows, s.eps, s.dim);
  if (e.size()) violation("dump-failure-spreads", "the barcodes are wrong: " + e + ": " + what);
  std::vector<std::vector<std::string>> rows; std::string err;
  if (!stats_rows(fs_get(s.out + "_stats.csv"), rows, err, true)) violation("dump-failure-spreads", err + ": " + what);
  if (rows.size() != 4) violation("dump-failure-spreads", strf("%zu statistics rows: ", rows.size()) + what);
  if (faults_fired()) probe("dump_failed");
  nontrivial();
  state(fnv(bars));
  if (!dir) return;
  bool closed = s.type == "simplexArrayList";
  auto good = [&](int i) { return !hit.count(P[i]); };
  for (int i = 0; i < 5; i++) if (i != 2 || closed) if (good(i) && !fs_exists(P[i])) violation("no-dump", "there is no " + P[i] + ": " + what);
  if (good(0)) {
    auto l = split(fs_get(P[0]), '\n');
    if (l.empty() || l.back() != "" || l.size() != s.rows.size() + 1) violation("wrong-dump", P[0] + strf(" has %zu lines for %zu points: ", l.size(), s.rows.size()) + what);
    for (size_t i = 0; i < s.rows.size(); i++) {
      auto c = split(l[i], ',');
      if (c.size() != s.rows.size() + 1 || c.back() != "") violation("wrong-dump", strf("row %zu of %s has %zu fields: ", i + 1, P[0].c_str(), c.size()) + what);
      for (size_t j = i + 1; j < s.rows.size(); j++) if (!near6(strtod(c[j].c_str(), 0), dist(s.rows[i], s.rows[j]))) violation("wrong-dump", strf("%s gives points %zu and %zu the distance %s, should be %.9g: ", P[0].c_str(), i + 1, j + 1, c[j].c_str(), dist(s.rows[i], s.rows[j])) + what);
    }
  }
  if (good(1)) { e = check_simplex_dump(fs_get(P[1]), s.rows, s.eps, s.dim, closed, closed); if (e.size()) violation("wrong-dump", P[1] + ": " + e + ": " + what); }
  if (good(2) && closed) { e = check_simplex_dump(fs_get(P[2]), s.rows, s.eps, s.dim, closed, false); if (e.size()) violation("wrong-dump", P[2] + ": " + e + ": " + what); }
  if (good(3)) {
    auto lines = [](const std::string &f) { std::vector<std::string> r; for (auto &l : split(f, '\n')) if (l.size() && l.find("birth") == std::string::npos) r.push_back(l); std::sort(r.begin(), r.end()); return r; };
    if (lines(fs_get(P[3])) != lines(bars)) violation("wrong-dump", P[3] + " differs from the barcode file: " + what);
  }
  probe("dumps_compared");
}
static void dump_preprocessor() {
  bool km = flip(GEN, 2, 3);
  CloudOpt o; o.nmin = 1; o.nmax = 30; o.dmax = 4;
  if (!km && flip(GEN, 1, 2)) { o.nmin = 20; o.nmax = 80; o.dmax = 2; o.shape = 5; }     // dense enough to leave centres
  if (km && flip(GEN, 1, 8)) { o.nmin = 60; o.nmax = 200; o.dmax = 3; }
  Rows r = !km && flip(GEN, 1, 20) ? gen_stream(1000, 1200) : gen_cloud(o);
  if (r.size() > 999) probe("denstream_beyond_initial_points");
  std::map<std::string, std::string> cfg = {{"clusters", std::to_string(1 + (int)gen(km && r.size() > 59 ? 150 : 6))}, {"iterations", std::to_string(flip(GEN, 1, 2) ? 250 : (int)gen(4))}, {"debug", "0"}, {"outputFile", "log"}, {"epsilon", strf("%.2f", 0.2 + (double)gen(40) / 10)}, {"lambda", ".25"}, {"complexType", "simplexTree"}, {"dimensions", "1"}, {"upscale", "false"}, {"mode", "standard"}};
  std::string name = km ? "k-means++" : "DenStream";
  std::string what = name + " (" + cfg["clusters"] + " clusters, " + cfg["iterations"] + " iterations, epsilon " + cfg["epsilon"] + ") on " + show(r, 16);
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  bool dir = !flip(ENV, 1, 8); if (dir) fs_mkdir("output"); else fault("no_dump_directory");
  const std::vector<std::string> P = {"output/" + name + "_centroid_output.csv", "output/" + name + "_label_output.csv"};
  std::set<std::string> hit;
  std::string fd = flip(ENV, 1, 2) ? dump_faults(P, hit) : "";
  if (fd.size()) what += " with" + fd;
  sample(what);
  Rows cen; std::vector<unsigned> lab; bool conf = false;
  Result x = run_sut([&] {
    pipePacket p(cfg, "simplexTree");
    p.originalData = r; p.fullData = r;
    preprocessor *q = (new preprocessor())->newPreprocessor(km ? "kmeans++" : "denStream");
    conf = q && q->configPreprocessor(cfg);
    if (!conf) return;
    p = q->runPreprocessorWrapper(p);
    SimScope s; cen = p.originalData; lab = p.originalLabels;
  });
  if (!x.ok()) violation("run-crash", "the preprocessor " + x.str() + ": " + what);
  if (!conf) violation("run-status", "the preprocessor cannot be configured: " + what);
  if (faults_fired()) probe("dump_failed");
  if (!km && cen.size()) probe("density_centres_dumped");
  nontrivial();
  // centroids and labels
  if (!dir) return;
  if (!hit.count(P[0])) {
    Rows d = parse_rows(fs_get(P[0]));
    bool ok = fs_exists(P[0]) && d.size() == cen.size();
    for (size_t i = 0; ok && i < cen.size(); i++) { ok = d[i].size() == cen[i].size(); for (size_t k = 0; ok && k < d[i].size(); k++) ok = near(d[i][k], cen[i][k], 1e-6 + 1e-9 * std::fabs(cen[i][k])); }
    if (!ok) violation("wrong-dump", P[0] + " does not hold the " + std::to_string(cen.size()) + " centres " + show(cen, 8) + ": " + what);
    state(fnv(fs_get(P[0])));
  }
  if (km && !hit.count(P[1])) {
    std::string want; for (auto v : lab) want += std::to_string(v) + "\n";
    if (!fs_exists(P[1]) || fs_get(P[1]) != want) violation("wrong-dump", P[1] + " does not hold the labels: " + what);
  }
  probe("preprocessor_dumps_compared");
}
void check_C20() {
  int k = (int)gen(16);
  if (k < 11) dump_stages(); else if (k < 15) dump_preprocessor(); else ck::dump_windows();
}
