#include "common.hpp"
#include <algorithm>
#include <map>
using namespace sim;
namespace ck {

bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r; size_t i = 0;
  while (i <= s.size()) { size_t j = s.find(c, i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; }
  return r;
}
std::string join(const std::vector<std::string> &v, const std::string &sep) { std::string o; for (size_t i = 0; i < v.size(); i++) { if (i) o += sep; o += v[i]; } return o; }
std::string fmtd(double v) { return strf("%.9g", v); }
std::string show(const Rows &r, size_t max) {
  std::string o = "[";
  for (size_t i = 0; i < r.size() && i < max; i++) {
    o += i ? " (" : "(";
    for (size_t j = 0; j < r[i].size(); j++) { if (j) o += ","; o += fmtd(r[i][j]); }
    o += ")";
  }
  if (r.size() > max) o += " ... " + std::to_string(r.size()) + " rows";
  return o + "]";
}
double dist(const std::vector<double> &a, const std::vector<double> &b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(s);
}

// ------------------------------------------------------------------ workloads
static double coord(int kind) {
  switch (kind) {
    case 0: return (double)gen(5);
    case 1: return (double)gen(2001) / 100.0 - 10.0;
    case 2: return ((double)gen(1u << 31) + (double)gen(1u << 21) / (1 << 21)) / (double)(1u << 31) * 8.0 - 4.0;
    default: return (double)gen(21) / 10.0;
  }
}
Rows gen_cloud(const CloudOpt &o) {
  int n = range(GEN, o.nmin, o.nmax);
  int d = range(GEN, o.dmin, o.dmax);
  int shape = (int)gen(9);
  if (o.shape >= 0) shape = o.shape;
  int size = o.plain ? 0 : (int)gen(16);     // mostly as they are, sometimes large or small coordinates or many of them
  if (size == 13) { d += 1 + (int)gen(6); probe("cloud_many_dimensions"); }
  if (size == 13 && flip(GEN, 1, 4)) { d += 8 + (int)gen(60); probe("cloud_very_many_dimensions"); }
  double scale = size == 15 ? 1000 : size == 14 ? 0.01 : 1;
  if (scale != 1) probe(scale > 1 ? "cloud_large_coordinates" : "cloud_small_coordinates");
  Rows r;
  static const char *nm[] = {"cloud_grid", "cloud_decimal", "cloud_random", "cloud_tenths", "cloud_circle", "cloud_clusters", "cloud_line", "cloud_duplicates", "cloud_cross"};
  probe(nm[shape]);
  for (int i = 0; i < n; i++) {
    std::vector<double> p(d);
    if (shape < 4) { for (auto &x : p) x = coord(shape); }
    else if (shape == 4) { // noisy circle
      double a = 6.283185307179586 * (i + 0.3 * (double)gen(100) / 100) / n, rad = 2.0 + (double)gen(100) / 400.0;
      for (int k = 0; k < d; k++) p[k] = k == 0 ? rad * std::cos(a) : k == 1 ? rad * std::sin(a) : (double)gen(40) / 100;
    } else if (shape == 5) { // clusters
      int c = (int)gen(4);
      for (int k = 0; k < d; k++) p[k] = ((c >> (k % 2)) & 1) * 6.0 + (double)gen(200) / 100;
    } else if (shape == 6) { // on a line
      double t = (double)gen(200) / 10;
      for (int k = 0; k < d; k++) p[k] = t * (k + 1);
    } else if (shape == 7 && i > 0 && flip(GEN, 1, 3)) { p = r[gen(r.size())]; }
    else if (shape == 7) { for (auto &x : p) x = coord(1); }
    else { // cross polytope like: +-e_k with noise, rich in higher cycles
      for (auto &x : p) x = (double)gen(30) / 100;
      p[(i / 2) % d] += (i & 1) ? 2.0 : -2.0;
    }
    r.push_back(p);
  }
  if (scale != 1) for (auto &p : r) for (auto &x : p) x *= scale;
  if (size == 12) { double far = (double)(1 + gen(9)) * (flip(GEN, 1, 2) ? 100 : 10000); for (auto &p : r) for (auto &x : p) x += far; probe("cloud_far_from_origin"); }
  if (size == 11) {   // nearly equal distances: short, but real, intervals
    double mag = std::pow(10.0, -(double)(5 + gen(6)));
    bool doubled = flip(GEN, 1, 2);
    for (size_t i = 1; doubled && i < r.size(); i += 2) r[i] = r[i - 1];
    for (auto &p : r) for (auto &x : p) x += ((double)gen(2001) - 1000) / 1000 * mag;
    probe(doubled ? "cloud_near_duplicates" : "cloud_near_ties");
  }
  return r;
}

std::string token(double v, int style) {
  switch (style) {
    case 0: return strf("%g", v);
    case 1: return strf("%.3f", v);
    case 2: return strf("%.17g", v);
    case 3: return strf("%.6e", v);
    case 4: return strf("%.9E", v);
    case 5: return strf("%+.6f", v);
    case 6: return strf("%.17g", v);
    case 7: return strf("%.17e", v);
    case 9: { std::string s = strf("%.3f", v); size_t k = s[0] == '-'; if (s[k] == '0') s.erase(k, 1); return s; }
    case 10: return strf("%.0f.", v);
    case 11: return std::fabs(v) < 1e15 ? strf("%.26f", v) : strf("%.17g", v);      // small values without an exponent
    case 12: return strf("%016.7f", v);                                            // leading zeros
    default: return strf("%+.17G", v);
  }
}
std::string gen_csv(const Rows &rows, Rows &seen, const CsvOpt &o, std::string *desc) {
  int style = o.exact ? 6 + (int)gen(3) : (int)gen(11), sep = 0, eol = 0, trail = 0, blanks = 0, nofinal = 0, lead = 0;
  if (o.decorate) {
    sep = (int)gen(4); eol = (int)gen(3) == 2; trail = (int)gen(4) == 3; blanks = (int)gen(3); nofinal = flip(GEN, 1, 3); lead = flip(GEN, 1, 5);
  }
  if (!o.exact && style > 6) style += 2;
  std::string out;
  seen.clear();
  const char *nl = eol ? "\r\n" : "\n";
  if (eol) probe("csv_crlf");
  if (trail) probe("csv_trailing_comma");
  if (blanks) probe("csv_blank_lines");
  if (nofinal) probe("csv_no_final_newline");
  if (sep) probe("csv_spaces");
  bool mixed = style == 6 && !o.exact;
  size_t fat = o.longlines && rows.size() && flip(GEN, 1, 25) ? gen(rows.size()) : (size_t)-1;   // one line longer than any buffer
  if (fat != (size_t)-1) probe("csv_line_over_60000_bytes");
  for (size_t i = 0; i < rows.size(); i++) {
    std::vector<double> row;
    if (blanks && flip(GEN, 1, 4)) { if (blanks == 2 && flip(GEN, 1, 2)) out += "  "; out += nl; }
    if (lead) out += " ";
    for (size_t j = 0; j < rows[i].size(); j++) {
      std::string t = token(rows[i][j], mixed ? (int)gen(6) : style);
      if (i == fat && flip(GEN, 1, j ? 3 : 2)) t = std::string(60000 + gen(80000), gen(2) ? ' ' : '\t') + t;
      if (o.longlines && flip(GEN, 1, 3)) t = std::string(gen(300), ' ') + t;
      row.push_back(strtod(t.c_str(), nullptr));
      if (j) out += sep == 1 ? ", " : sep == 2 ? " ," : sep == 3 ? " , " : ",";
      out += t;
    }
    if (trail) out += ",";
    if (sep == 3) out += " ";
    if (i + 1 < rows.size() || !nofinal) out += nl;
    seen.push_back(row);
  }
  if (blanks && !nofinal && flip(GEN, 1, 2)) { out += nl; }
  if (desc) *desc = strf("style=%d sep=%d crlf=%d trailing=%d blanks=%d nofinal=%d", style, sep, eol, trail, blanks, nofinal);
  return out;
}

// ------------------------------------------------------------------ Vietoris-Rips by definition
std::vector<std::vector<Simp>> vr_simplices(const Rows &pts, double eps, int maxdim, bool closed) {
  int n = (int)pts.size();
  std::vector<std::vector<double>> D(n, std::vector<double>(n, 0));
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) D[i][j] = D[j][i] = dist(pts[i], pts[j]);
  std::vector<std::vector<Simp>> r;
  std::vector<Simp> cur;
  for (int i = 0; i < n; i++) cur.push_back({{(unsigned)i}, 0.0});
  for (int d = 0; d <= maxdim && !cur.empty(); d++) {
    r.push_back(cur);
    if (d == maxdim) break;
    std::vector<Simp> nx;
    for (auto &s : cur)
      for (int j = (int)s.v.back() + 1; j < n; j++) {
        double w = s.w; bool ok = true;
        for (unsigned v : s.v) { double e = D[v][j]; if (closed ? e > eps : e >= eps) { ok = false; break; } w = std::max(w, e); }
        if (!ok) continue;
        Simp t = s; t.v.push_back((unsigned)j); t.w = w;
        nx.push_back(t);
      }
    cur.swap(nx);
  }
  return r;
}
static bool robust_equal(const std::vector<double> &a, const std::vector<double> &b, const std::vector<double> &c, const std::vector<double> &d) {
  bool same = true, ints = true;
  for (size_t i = 0; i < a.size(); i++) {
    if (std::fabs(a[i] - b[i]) != std::fabs(c[i] - d[i])) same = false;
    for (double x : {a[i], b[i], c[i], d[i]}) if (x != std::floor(x) || std::fabs(x) > 1e6) ints = false;
  }
  return same || ints;
}
VR vr_persistence(const Rows &pts, double eps, int dim, bool closed) {
  VR r;
  int n = (int)pts.size();
  struct E { double w; int i, j; };
  std::vector<E> es;
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) es.push_back({dist(pts[i], pts[j]), i, j});
  std::sort(es.begin(), es.end(), [](const E &a, const E &b) { return a.w < b.w; });
  for (size_t k = 1; k < es.size(); k++)
    if (es[k].w - es[k - 1].w <= 1e-11 * es[k].w && !(es[k].w == es[k - 1].w && robust_equal(pts[es[k].i], pts[es[k].j], pts[es[k - 1].i], pts[es[k - 1].j]))) { r.fuzzy = true; break; }
  // H0: single linkage
  std::vector<int> uf(n);
  for (int i = 0; i < n; i++) uf[i] = i;
  std::function<int(int)> find = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  int comps = n;
  for (auto &e : es) {
    if (closed ? e.w > eps : e.w >= eps) break;
    int a = find(e.i), b = find(e.j);
    if (a != b) { uf[a] = b; comps--; r.h0.push_back(e.w); }
  }
  for (int i = 0; i < comps; i++) r.h0.push_back(eps);
  std::sort(r.h0.begin(), r.h0.end());
  if (dim <= 1) return r;
  // higher degrees: standard column reduction of the boundary matrix over Z/2
  auto sx = vr_simplices(pts, eps, dim, closed);
  for (auto &l : sx) std::stable_sort(l.begin(), l.end(), [](const Simp &a, const Simp &b) { return a.w < b.w; });
  for (int d = 1; d < dim && d + 1 < (int)sx.size(); d++) {
    std::map<std::vector<unsigned>, int> idx;
    for (size_t i = 0; i < sx[d].size(); i++) idx[sx[d][i].v] = (int)i;
    std::map<int, std::vector<int>> low;        // pivot row -> reduced column
    for (auto &s : sx[d + 1]) {
      std::vector<int> col;
      for (size_t k = 0; k < s.v.size(); k++) { auto f = s.v; f.erase(f.begin() + k); col.push_back(idx[f]); }
      std::sort(col.begin(), col.end());
      while (!col.empty()) {
        auto it = low.find(col.back());
        if (it == low.end()) break;
        std::vector<int> x;
        std::set_symmetric_difference(col.begin(), col.end(), it->second.begin(), it->second.end(), std::back_inserter(x));
        col.swap(x);
      }
      if (col.empty()) continue;
      double b = sx[d][col.back()].w, e = s.w;
      low[col.back()] = col;
      Bar bar = {d, b, e};
      if (e - b > (r.fuzzy ? 4e-6 : 0)) r.must.push_back(bar);   // the order of the distances is certain: so is every interval
      else if (e > b) r.may.push_back(bar);
    }
  }
  return r;
}
bool eps_ambiguous(const Rows &pts, double eps, bool &tie) {
  tie = false;
  for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < i; j++) {
    double d = dist(pts[i], pts[j]);
    if (d == eps) {
      tie = true;
      for (size_t k = 0; k < pts[i].size(); k++) if (pts[i][k] != std::floor(pts[i][k]) || pts[j][k] != std::floor(pts[j][k])) return true;
    }
    else if (std::fabs(d - eps) < 1e-7) return true;
  }
  return false;
}
bool parse_barcodes(const std::string &file, std::vector<Bar> &bars, std::string &err) {
  std::vector<std::string> l = split(file, '\n');
  if (l.empty() || l[0] != "dimension,birth,death") { err = "first line is '" + (l.empty() ? "" : l[0].substr(0, 60)) + "', not the header"; return false; }
  if (l.back() != "") { err = "last line is not terminated: '" + l.back().substr(0, 60) + "'"; return false; }
  for (size_t i = 1; i + 1 < l.size(); i++) {
    auto f = split(l[i], ',');
    Bar b;
    char *e;
    if (f.size() != 3) { err = strf("line %zu is '%s'", i + 1, l[i].substr(0, 80).c_str()); return false; }
    b.d = (int)strtol(f[0].c_str(), &e, 10); if (*e || f[0].empty()) { err = "bad dimension in '" + l[i] + "'"; return false; }
    b.b = strtod(f[1].c_str(), &e); if (*e || f[1].empty() || !std::isfinite(b.b)) { err = "bad birth in '" + l[i] + "'"; return false; }
    b.e = strtod(f[2].c_str(), &e); if (*e || f[2].empty() || !std::isfinite(b.e)) { err = "bad death in '" + l[i] + "'"; return false; }
    for (int k = 1; k < 3; k++) {
      size_t dot = f[k].find('.');
      if (dot == std::string::npos ? (b.d != 0 && true) : f[k].size() - dot - 1 != 6) {
        if (!(dot == std::string::npos && f[k] == "0")) { err = "'" + l[i] + "' is not printed to six decimals"; return false; }
      }
    }
    bars.push_back(b);
  }
  return true;
}
uint64_t bars_hash(const std::vector<Bar> &b) {
  std::vector<std::string> v;
  for (auto &x : b) v.push_back(strf("%d,%.6f,%.6f", x.d, x.b, x.e));
  std::sort(v.begin(), v.end());
  return fnv(join(v, ";"));
}
// maximum matching of required bars into reported bars (small sizes)
static bool augment(int u, const std::vector<std::vector<int>> &adj, std::vector<int> &match, std::vector<char> &vis) {
  for (int v : adj[u]) {
    if (vis[v]) continue;
    vis[v] = 1;
    if (match[v] < 0 || augment(match[v], adj, match, vis)) { match[v] = u; return true; }
  }
  return false;
}
static std::string compare(const std::vector<Bar> &bars, VR o, int n, double eps, int dim, double T) {
  if (T > 2e-6) {   // the points themselves are known to a few places only: short bars may appear and vanish
    o.fuzzy = true;
    std::vector<Bar> keep; for (auto &b : o.must) (b.e - b.b > 2 * T ? keep : o.may).push_back(b);
    o.must.swap(keep);
  }
  std::vector<double> h0;
  std::vector<Bar> hi;
  for (auto &b : bars) {
    if (b.d == 0) {
      if (b.b != 0) return strf("an H0 bar is born at %.6f", b.b);
      h0.push_back(b.e);
    } else {
      if (b.d < 0 || b.d >= dim) return strf("a bar has dimension %d, asked for dimensions below %d", b.d, dim);
      hi.push_back(b);
    }
  }
  std::sort(h0.begin(), h0.end());
  if (h0.size() != o.h0.size()) return strf("%zu H0 bars for %d points", h0.size(), n);
  for (size_t i = 0; i < h0.size(); i++) if (!near(h0[i], o.h0[i], T)) return strf("H0 death number %zu is %.6f, should be %.6f", i + 1, h0[i], o.h0[i]);
  // each required bar must be reported, each reported bar must be a real one
  std::vector<std::vector<int>> adj(o.must.size());
  for (size_t i = 0; i < o.must.size(); i++)
    for (size_t j = 0; j < hi.size(); j++)
      if (hi[j].d == o.must[i].d && near(hi[j].b, o.must[i].b, T) && near(hi[j].e, o.must[i].e, T)) adj[i].push_back((int)j);
  std::vector<int> match(hi.size(), -1);
  for (size_t i = 0; i < o.must.size(); i++) {
    std::vector<char> vis(hi.size(), 0);
    if (!augment((int)i, adj, match, vis)) return strf("the H%d bar [%.6f,%.6f) is missing (%zu bars of degree >= 1 reported, %zu expected)", o.must[i].d, o.must[i].b, o.must[i].e, hi.size(), o.must.size());
  }
  std::vector<char> used(o.may.size(), 0);
  for (size_t j = 0; j < hi.size(); j++) {
    if (match[j] >= 0) continue;
    bool ok = false;
    for (size_t k = 0; k < o.may.size() && !ok; k++)
      if (!used[k] && o.may[k].d == hi[j].d && near(hi[j].b, o.may[k].b, T) && near(hi[j].e, o.may[k].e, T)) { used[k] = 1; ok = true; }
    if (!ok && o.fuzzy && hi[j].e - hi[j].b <= std::max(6e-6, 2 * T + 2e-6) && hi[j].e >= hi[j].b) ok = true;
    if (!ok) return strf("the reported H%d bar [%.6f,%.6f) does not exist", hi[j].d, hi[j].b, hi[j].e);
  }
  (void)eps;
  return "";
}
std::string check_barcodes(const std::string &file, const Rows &pts, double eps, int dim, double tol) {
  std::vector<Bar> bars;
  std::string err;
  if (!parse_barcodes(file, bars, err)) return err;
  std::string a = compare(bars, vr_persistence(pts, eps, dim, false), (int)pts.size(), eps, dim, tol);
  if (a.empty()) return "";
  bool tie;
  eps_ambiguous(pts, eps, tie);
  if (tie) { std::string b = compare(bars, vr_persistence(pts, eps, dim, true), (int)pts.size(), eps, dim, tol); if (b.empty()) { probe("eps_tie_closed"); return ""; } }
  return a;
}

// ------------------------------------------------------------------ running LHF
Run run_lhf(const std::vector<std::string> &args) {
  Run u; u.rc = -1;
  std::vector<std::string> full; full.push_back("LHF");
  for (auto &a : args) full.push_back(a);
  static std::vector<char *> av; av.clear();
  for (auto &a : full) av.push_back(strdup(a.c_str()));
  av.push_back(nullptr);
  clear_stdout();
  u.r = run_sut([&] { u.rc = lhf_main((int)full.size(), av.data()); });
  if (u.r.kind == Result::EXITED) { u.rc = u.r.code; }
  else if (u.r.kind != Result::RETURNED) u.rc = 134;   // abnormal end: a non-zero status
  u.out = captured_stdout();
  return u;
}
Rows parse_rows(const std::string &f) {
  Rows r;
  for (auto &l : split(f, '\n')) {
    if (l.empty()) continue;
    std::vector<double> p;
    for (auto &x : split(l, ',')) if (x.size()) p.push_back(strtod(x.c_str(), 0));
    r.push_back(p);
  }
  return r;
}
}  // namespace ck
