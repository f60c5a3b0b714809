// Complexes, clustering and stream processing: C03, C07, C09, C10, C11, C12.
#include "common.hpp"
#include <errno.h>
#include <algorithm>
#include "denStream.hpp"
#include "naiveWindow.hpp"
#include "pipePacket.hpp"
#include "preprocessor.hpp"
#include "indSimplexTree.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "slidingWindow.hpp"
using namespace sim;
using namespace ck;
typedef std::map<std::string, std::string> Cfg;

// ------------------------------------------------------------------ C03
struct MSimp { std::set<unsigned> v; double w; };
static std::vector<std::vector<MSimp>> vr_matrix(const Rows &D, int n, double eps, int maxdim, bool closed) {
  std::vector<std::vector<MSimp>> r;
  std::vector<MSimp> cur;
  for (int i = 0; i < n; i++) cur.push_back({{(unsigned)i}, 0.0});
  for (int d = 0; d <= maxdim && !cur.empty(); d++) {
    r.push_back(cur);
    std::vector<MSimp> nx;
    for (auto &s : cur) for (int j = (int)*s.v.rbegin() + 1; j < n; j++) {
      double w = s.w; bool ok = true;
      for (unsigned v : s.v) { double e = D[v][j]; if (closed ? e > eps : e >= eps) { ok = false; break; } w = std::max(w, e); }
      if (!ok) continue;
      MSimp t = s; t.v.insert((unsigned)j); t.w = w; nx.push_back(t);
    }
    cur.swap(nx);
  }
  return r;
}
typedef std::vector<std::vector<std::pair<std::set<unsigned>, double>>> Listing;
static std::string sset(const std::set<unsigned> &s) { std::string o = "{"; for (unsigned x : s) o += (o.size() > 1 ? "," : "") + std::to_string(x); return o + "}"; }
static std::string cmp_listing(const Listing &got, const std::vector<std::vector<MSimp>> &want, int upto, unsigned base, bool sorted) {
  for (int d = 0; d <= upto; d++) {
    static const std::vector<std::pair<std::set<unsigned>, double>> none;
    static const std::vector<MSimp> nonew;
    const auto &g = d < (int)got.size() ? got[d] : none;
    const auto &w = d < (int)want.size() ? want[d] : nonew;
    std::map<std::set<unsigned>, double> m;
    for (auto &s : w) { std::set<unsigned> t; for (unsigned x : s.v) t.insert(x + base); m[t] = s.w; }
    std::set<std::set<unsigned>> seen;
    for (size_t i = 0; i < g.size(); i++) {
      auto it = m.find(g[i].first);
      if (it == m.end()) return strf("%s of dimension %d is reported but not in the complex", sset(g[i].first).c_str(), d);
      if (!seen.insert(g[i].first).second) return strf("%s is reported twice", sset(g[i].first).c_str());
      if (it->second != g[i].second) return strf("%s has weight %.17g, should be %.17g", sset(g[i].first).c_str(), g[i].second, it->second);
      if (sorted && i && g[i].second < g[i - 1].second) return strf("%s of dimension %d is listed out of order", sset(g[i].first).c_str(), d);
    }
    for (auto &x : m) if (!seen.count(x.first)) return strf("%s of dimension %d is missing", sset(x.first).c_str(), d);
  }
  for (size_t d = upto + 1; d < got.size(); d++) if (got[d].size() && upto >= 99) return "too many dimensions";
  return "";
}
struct Cx {
  int t; double eps; int maxdim; simplexBase *c = nullptr;
  Rows D; int n = 0, cap = 0, expanded = 1; bool stale = false; int epochs = 0;
};
void check_C03() {
  static const char *TY[] = {"simplexTree", "simplexArrayList", "indSimplexTree"};
  int nc = 1 + (int)flip(GEN, 1, 4);
  env_benign(E_CHUNK | E_MEM | E_TIME);
  std::vector<Cx> cs; std::string what;
  auto refill = [&](Cx &x) {
    x.cap = 1 + (int)gen(x.t == 1 ? (x.maxdim >= 3 ? 6 : 8) : x.maxdim >= 3 ? 8 : 11);
    if (x.maxdim <= 1 && flip(GEN, 1, 8)) { x.cap = 17 + (int)gen(x.t == 1 ? 20 : 60); probe("many_points"); }
    bool huge = x.maxdim <= 1 && x.t != 1 && flip(GEN, 1, 250);
    if (huge) { x.cap = 250 + (int)gen(60); probe("more_points_than_a_byte_counts"); }
    int kind = huge ? 3 : (int)gen(4);
    x.D.assign(x.cap, std::vector<double>(x.cap, 0));
    Rows pts; if (kind == 3) { CloudOpt o; o.nmin = o.nmax = x.cap; pts = gen_cloud(o); }
    bool sym = flip(GEN, 1, 2);
    for (int i = 0; i < x.cap; i++) for (int j = i + 1; j < x.cap; j++) {
      double d = kind == 0 ? (double)gen(5) : kind == 1 ? (double)gen(41) / 10 : kind == 2 ? (double)gen(1u << 30) / (1u << 28) : dist(pts[i], pts[j]);
      x.D[i][j] = d; if (sym) x.D[j][i] = d;
    }
    x.n = 0; x.stale = false; x.expanded = 1;
  };
  for (int i = 0; i < nc; i++) {
    Cx x; x.t = (int)gen(3); x.maxdim = 1 + (int)gen(4); if (x.maxdim == 1 && flip(GEN, 1, 5)) { x.maxdim = 0; probe("dimension_0"); } x.eps = flip(GEN, 1, 2) ? 1 + (double)gen(5) : 0.5 + (double)gen(40) / 10;
    refill(x);
    what += strf("%s%s(eps=%g,dim=%d)", i ? " and " : "", TY[x.t], x.eps, x.maxdim);
    Cfg cfg = {{"epsilon", strf("%.6f", x.eps)}, {"dimensions", std::to_string(x.maxdim)}, {"debug", "0"}, {"outputFile", "log"}, {"complexType", TY[x.t]}};
    bool direct = flip(GEN, 1, 4);      // made by its constructor instead of from a configuration
    if (direct) { what += " constructed"; probe("constructed_directly"); }
    Result r = run_sut([&] {
      if (!direct) { pipePacket p(cfg, TY[x.t]); x.c = p.complex; x.c->setDistanceMatrix(x.D); return; }
      if (x.t == 0) x.c = new simplexTree(x.eps, x.D, x.maxdim);
      else if (x.t == 1) x.c = new simplexArrayList(x.eps, x.maxdim, x.D);
      else x.c = new indSimplexTree(x.eps, x.D, x.maxdim);
    });
    if (!r.ok() || !x.c) violation("complex-crash", "creating " + what + ": " + r.str());
    cs.push_back(x);
  }
  int steps = 3 + (int)gen(30), queries = 0;
  for (auto &x : cs) if (x.cap > 100) steps = std::min(steps, 8);
  std::string hist;
  for (int st = 0; st < steps; st++) {
    Cx &x = cs[gen(nc)];
    int op = (int)gen(10);
    std::string ctx;
    auto where = [&](const char *o) { hist += strf(" %s%s", nc > 1 ? (&x == &cs[0] ? "1." : "2.") : "", o); ctx = strf("%s after", TY[x.t]) + hist + strf("; %d points, eps %g, dimension %d, distances ", x.n, x.eps, x.maxdim) + (x.cap > 100 ? "of a cloud" : show(x.D)) + "; " + what; };
    bool closed = x.t == 1;
    if (op <= 4) {          // insert one or several
      int k = 1 + (int)gen(x.cap > 16 ? x.cap : 3);
      if (x.cap > 100 && flip(GEN, 1, 2)) k = x.cap;
      for (; k > 0 && x.n < x.cap; k--) {
        std::vector<double> v(2, (double)x.n);
        Result r = run_sut([&] { x.c->insert(v); });
        x.n++; x.stale = true;
        where("insert");
        if (!r.ok()) violation("complex-crash", "insert " + r.str() + ": " + ctx);
      }
    } else if (op == 5) {   // expand
      int d = std::max(x.expanded, std::min(3, x.maxdim));
      Result r = run_sut([&] { x.c->expandDimensions(d); });
      where(strf("expand(%d)", d).c_str());
      if (!r.ok()) violation("complex-crash", "expandDimensions " + r.str() + ": " + ctx);
      x.expanded = d; x.stale = false;
    } else if (op == 6 && x.t != 2 && x.n > 0) {   // clear and refill
      if (!flip(GEN, 1, 2)) continue;
      refill(x);
      Result r = run_sut([&] { x.c->clear(); x.c->setDistanceMatrix(x.D); });
      x.epochs++;
      where("clear");
      if (!r.ok()) violation("complex-crash", "clear " + r.str() + ": " + ctx);
      probe("cleared");
    } else {                // query
      int q = (int)gen(4);
      Listing l; int sc = 0, vc = 0; std::vector<std::vector<simplexBase::graphEntry>> ie; std::vector<std::vector<std::vector<unsigned>>> de; double sz = 0; bool fnd = true; std::vector<unsigned> fv, fnot;
      int avail = closed ? (x.stale ? 1 : std::max(1, x.expanded)) : std::max(1, x.maxdim);
      auto want = vr_matrix(x.D, x.n, x.eps, avail, closed);
      if (q == 1 && x.t != 2) q = 0;
      if (q == 3 && (x.t == 2 || x.cap > 100)) q = 0;
      Result r = run_sut([&] {
        if (q == 0) l = x.c->getAllEdges(x.eps);
        else if (q == 1) ie = x.c->getIndexEdges(x.eps);
        else if (q == 3) for (size_t d = 0; d < want.size(); d++) de.push_back(x.c->getDimEdges(closed ? (int)d + 1 : (int)d, x.eps));
        sc = x.c->simplexCount(); vc = x.c->vertexCount(); sz = x.c->getSize();
      });
      queries++;
      where(q == 0 ? "list" : q == 1 ? "listIndexed" : q == 2 ? "count" : "listByDimension");
      if (!r.ok()) violation("complex-crash", "the query " + r.str() + ": " + ctx);
      size_t total = 0; for (auto &w : want) total += w.size();
      if (vc != x.n) violation("vertex-count", strf("vertex count %d with %d points: ", vc, x.n) + ctx);
      if ((!closed || !x.stale || x.expanded <= 1) && sc != (int)total) violation("simplex-count", strf("simplex count %d, the complex has %zu: ", sc, total) + ctx);
      if (q == 1) for (auto &dl : ie) { l.emplace_back(); for (auto &g : dl) l.back().push_back({g.simplexSet, g.weight}); }
      if (q == 3) for (size_t d = 0; d < de.size(); d++) {
        l.emplace_back();
        for (auto &s : de[d]) {
          std::set<unsigned> k(s.begin(), s.end());
          double w = -1; unsigned b0 = x.epochs ? *std::min_element(s.begin(), s.end()) : 0; (void)b0;
          l.back().push_back({k, w});
        }
      }
      if (q != 2) {
        unsigned base = 0;
        if (x.epochs && l.size() && l[0].size()) { base = ~0u; for (auto &s : l[0]) base = std::min(base, s.first.size() ? *s.first.begin() : 0u); }
        if (q == 3) for (size_t d = 0; d < l.size(); d++) for (auto &s : l[d]) for (auto &w : want[d]) { std::set<unsigned> t; for (unsigned z : w.v) t.insert(z + base); if (t == s.first) s.second = w.w; }
        std::string e = cmp_listing(l, want, avail, base, q != 3);
        if (e.size()) violation("wrong-simplices", e + ": " + ctx);
        if (!closed || !x.stale) for (size_t d = avail + 1; d < l.size(); d++) if (l[d].size()) violation("wrong-simplices", strf("%zu simplices of dimension %zu are reported: ", l[d].size(), d) + ctx);
        if (want.size() > 2) probe("has_triangles");
        if (want.size() > 3) probe("has_tetrahedra");
        uint64_t h = (uint64_t)x.t; for (auto &w : want) h = h * 1000003 + w.size(); state(h);
        if (x.n >= 3 && want.size() > 1) nontrivial();
      }
    }
  }
  sample(what + ":" + hist);
}

// ------------------------------------------------------------------ C07
void check_C07() {
  env_benign(E_CHUNK | E_MEM | E_TIME | E_RAND);
  int jobs = 1 + (int)gen(3);
  bool one = flip(GEN, 1, 2), related = flip(GEN, 1, 3);      // related: the next data set is like the one before
  if (related) jobs = 2 + (int)gen(6);
  preprocessor *pp = nullptr;
  std::string all;
  Rows last; int lastk = 0;
  for (int q = 0; q < jobs; q++) {
    CloudOpt o; o.nmin = flip(GEN, 1, 20) ? 0 : 1; o.nmax = related ? 7 : flip(GEN, 1, 3) ? 60 : 15; o.dmax = 4;
    bool big = !related && flip(GEN, 1, 30);
    if (big) { static const int B[] = {100, 128, 256, 500, 512, 1000, 1024}; o.nmin = 100; o.nmax = 900; if (flip(GEN, 1, 2)) o.nmin = o.nmax = B[gen(7)] + (int)gen(3) - 1; o.dmax = 9; probe("many_points"); }
    bool many = big && flip(GEN, 1, 8);   // more clusters than a byte counts
    if (many) { o.nmin = 300; o.nmax = 450; o.dmax = 3; probe("many_clusters"); }
    Rows pts = gen_cloud(o);
    bool alike = related && last.size() && flip(GEN, 4, 5);
    if (alike) {
      pts = last; probe("data_like_the_previous");
      int n = 1 + (int)gen(3);
      for (int i = 0; i < n; i++) { size_t a = gen(pts.size()), b = gen(pts.size()); double f = (double)gen(9) / 4 - 0.5; for (size_t d = 0; d < pts[a].size(); d++) pts[a][d] += f * (pts[b][d] - pts[a][d]); }
    }
    int k = alike && flip(GEN, 3, 4) ? lastk : many ? 250 + (int)gen(80) : 1 + (int)gen(big ? 50 : flip(GEN, 1, 4) ? pts.size() + 4 : 6);
    last = pts; lastk = k;
    static const int IT[] = {2000, 1, 2, 3, 5};
    int it = IT[gen(related ? 2 : 5)];
    Cfg cfg = {{"clusters", std::to_string(k)}, {"iterations", std::to_string(it)}, {"debug", flip(GEN, 1, 4) ? "1" : "0"}, {"outputFile", "log"}, {"epsilon", "1.0"}, {"dimensions", "1"}};
    std::string what = strf("%d clusters, %d iterations of ", k, it) + show(pts, 40);
    all += (q ? "; then " : "") + what;
    Rows cen; std::vector<unsigned> lab; bool conf = false;
    Result r = run_sut([&] {
      pipePacket p(cfg, "simplexTree");
      p.originalData = pts;
      if (!pp || !one) pp = (new preprocessor())->newPreprocessor("kmeans++");
      conf = pp && pp->configPreprocessor(cfg);
      if (!conf) return;
      p = pp->runPreprocessor(p);
      cen.assign(p.originalData.begin(), p.originalData.end());
      lab.assign(p.originalLabels.begin(), p.originalLabels.end());
    });
    if (!r.ok()) violation("kmeans-crash", "k-means++ " + r.str() + ": " + all);
    if (!conf) violation("kmeans-config", "k-means++ could not be configured: " + all);
    if (pts.empty()) { if (cen.size() || lab.size()) violation("labels", "centroids or labels without points: " + all); continue; }
    std::set<std::vector<double>> distinct(pts.begin(), pts.end());
    size_t want = std::min<size_t>(k, distinct.size()), dim = pts[0].size();
    if (cen.size() != want) violation("centroid-count", strf("%zu centroids, should be %zu: ", cen.size(), want) + all);
    if (lab.size() != pts.size()) violation("labels", strf("%zu labels for %zu points: ", lab.size(), pts.size()) + all);
    for (auto &c : cen) {
      if (c.size() != dim) violation("centroid", "a centroid has another dimension than the points: " + all);
      for (double v : c) if (!std::isfinite(v)) violation("centroid", "a centroid is not finite: " + show(cen) + ": " + all);
    }
    double M = 1; for (auto &p : pts) for (double v : p) M = std::max(M, std::fabs(v));
    std::vector<size_t> cnt(cen.size()); Rows sum(cen.size(), std::vector<double>(dim, 0));
    for (size_t i = 0; i < pts.size(); i++) {
      if (lab[i] >= cen.size()) violation("labels", strf("point %zu has label %u with %zu centroids: ", i + 1, lab[i], cen.size()) + all);
      cnt[lab[i]]++; for (size_t d = 0; d < dim; d++) sum[lab[i]][d] += pts[i][d];
    }
    uint64_t h = 0;
    for (size_t c = 0; c < cen.size(); c++) {
      h = h * 31 + cnt[c];
      if (!cnt[c]) { probe("empty_cluster"); continue; }
      for (size_t d = 0; d < dim; d++) if (std::fabs(sum[c][d] / cnt[c] - cen[c][d]) > 1e-9 * M) violation("centroid", strf("centroid %zu is %.12g in coordinate %zu, its %zu points have mean %.12g: ", c, cen[c][d], d + 1, cnt[c], sum[c][d] / cnt[c]) + all);
    }
    if (it >= 2000) {
      probe("converged");
      for (size_t i = 0; i < pts.size(); i++) {
        double own = dist(pts[i], cen[lab[i]]);
        for (size_t c = 0; c < cen.size(); c++) if (dist(pts[i], cen[c]) < own - 1e-9 * M) violation("not-nearest", strf("point %zu is labelled %u at distance %.12g, centroid %zu is at %.12g: ", i + 1, lab[i], own, c, dist(pts[i], cen[c])) + all);
      }
    } else probe("iteration_limit");
    if (k > (int)distinct.size()) probe("fewer_points_than_clusters");
    state(h);
    if (cen.size() > 1) nontrivial();
  }
  sample(all);
}

// ------------------------------------------------------------------ C09
void check_C09() {
  env_benign(E_MEM);
  int nm = 1 + (int)gen(3), dim = 1 + (int)gen(flip(GEN, 1, 6) ? 16 : 4);
  struct P { std::vector<double> x; int t; };
  struct MC { std::vector<P> ps; int born; double la; };
  std::vector<MC> mod;
  std::vector<microCluster> *sut = nullptr;
  static const double LAM[] = {0.25, 0.1, 1, 0.01, 2.5, 0};
  double lambda = LAM[gen(6)]; bool own = flip(GEN, 1, 3);   // own: each cluster decays at its own rate
  double scale = flip(GEN, 1, 3) ? std::pow(10.0, (double)gen(15) - 8) : 1;
  int now = flip(GEN, 1, 2) ? (int)gen(100) : 0;
  Result r = run_sut([&] { sut = new std::vector<microCluster>(); });
  std::string what = strf("%d dimensions, coordinates up to %g:", dim, 10 * scale);
  auto stat = [&](const MC &m, int T, double &W, std::vector<double> &c, double &r2, double &M) {
    std::vector<double> sq(dim, 0); c.assign(dim, 0); W = 0; M = 0;
    int last = m.ps.empty() ? 0 : m.ps.back().t;
    double W0 = 0;             // relative to the last insertion, so nothing underflows
    for (auto &p : m.ps) { double w = std::exp2(-m.la * (last - p.t)); W0 += w; for (int i = 0; i < dim; i++) { c[i] += w * p.x[i]; sq[i] += w * p.x[i] * p.x[i]; M = std::max(M, std::fabs(p.x[i])); } }
    r2 = 0;
    if (m.ps.empty()) return;
    for (int i = 0; i < dim; i++) { c[i] /= W0; sq[i] /= W0; }
    // spread about the mean, without cancellation
    for (auto &p : m.ps) { double w = std::exp2(-m.la * (last - p.t)); for (int i = 0; i < dim; i++) r2 += w / W0 * (p.x[i] - c[i]) * (p.x[i] - c[i]); }
    W = W0 * std::exp2(-m.la * (T - last));
  };
  auto close2 = [&](double got, double r2, double M, size_t n) {   // radius against its exact square
    return std::isfinite(got) && got >= 0 && std::fabs(got * got - r2) <= 1e-14 * M * M * dim * (20 + (double)n) + 1e-12 * r2;
  };
  auto born = [&]() {
    MC m; m.born = now; if (own) lambda = LAM[gen(6)]; m.la = lambda; mod.push_back(m);
    Result q = run_sut([&] { sut->push_back(microCluster(now, dim, lambda)); });   // growing the vector copies the others
    if (!q.ok()) violation("cluster-crash", "creating a micro-cluster " + q.str() + ": " + what);
    what += strf(" new(lambda %g)@%d", lambda, now);
    if (own && mod.size() > 1) probe("clusters_of_different_lambda");
  };
  for (int i = 0; i < nm; i++) born();
  int steps = 3 + (int)gen(flip(GEN, 1, 40) ? 600 : g_tier == "thorough" ? 120 : 40);
  for (int st = 0; st < steps; st++) {
    if (flip(GEN, 1, 3)) now += flip(GEN, 1, 6) ? (int)gen(flip(GEN, 1, 8) ? 20000000 : 5000) : 1 + (int)gen(8);
    int a = (int)gen(mod.size());
    int op = (int)gen(6);
    if (op == 5 && mod.size() < 5 && flip(GEN, 1, 4)) { born(); continue; }
    if (op == 5 && mod.size() > 1 && flip(GEN, 1, 6)) {
      mod.erase(mod.begin() + a);
      Result q = run_sut([&] { sut->erase(sut->begin() + a); });
      if (!q.ok()) violation("cluster-crash", "erasing " + q.str() + ": " + what);
      what += strf(" erase%d", a); continue;
    }
    MC &m = mod[a];
    std::string ctx;
    if (op <= 2) {
      P p; p.t = now; p.x.resize(dim);
      if (m.ps.size() && flip(GEN, 1, 4)) p.x = m.ps[gen(m.ps.size())].x;
      else for (auto &v : p.x) v = ((double)gen(2001) / 100 - 10) * scale;
      double predicted = -1, before = -1, after = -1;
      bool ask = flip(GEN, 1, 2);
      Result q = run_sut([&] {
        if (ask) predicted = (*sut)[a].mergeRadius(p.x, now);
        before = (*sut)[a].getWeight(now);
        (*sut)[a].insertPoint(p.x, now);
        after = (*sut)[a].getRadius();
      });
      m.ps.push_back(p);
      what += strf(" insert%d(%s)@%d", a, show({p.x}).c_str(), now);
      if (!q.ok()) violation("cluster-crash", "inserting " + q.str() + ": " + what);
      double W, r2, M; std::vector<double> c; stat(m, now, W, c, r2, M);
      if (ask) {
        if (!close2(predicted, r2, M, m.ps.size())) violation("merge-radius", strf("the predicted radius is %.12g, after the insertion it should be %.12g: ", predicted, std::sqrt(r2)) + what);
        probe("merge_predicted");
      }
      if (!close2(after, r2, M, m.ps.size())) violation("radius", strf("the radius is %.12g, should be %.12g: ", after, std::sqrt(r2)) + what);
    } else {
      double w = -1, w2 = -1, rad = -1; std::vector<double> c; int ct = -1;
      int later = now + (int)gen(flip(GEN, 1, 4) ? 3000 : 6);
      Result q = run_sut([&] {
        w = (*sut)[a].getWeight(now); rad = (*sut)[a].getRadius(); ct = (*sut)[a].getCreationTime(); w2 = (*sut)[a].getWeight(later);
        auto cc = (*sut)[a].getCenter(); c.assign(cc.begin(), cc.end());
      });
      if (!q.ok()) violation("cluster-crash", "the query " + q.str() + ": " + what);
      ctx = strf("cluster %d at time %d: ", a, now) + what;
      if (ct != m.born) violation("creation-time", strf("creation time %d instead of %d: ", ct, m.born) + ctx);
      double W, r2, M; std::vector<double> mc; stat(m, now, W, mc, r2, M);
      if (!(std::fabs(w - W) <= 1e-9 * W)) violation("weight", strf("the weight is %.12g, should be %.12g: ", w, W) + ctx);
      if (w2 > w * (1 + 1e-12)) violation("weight", strf("the weight grows from %.12g at %d to %.12g at %d without an insertion: ", w, now, w2, later) + ctx);
      double WL = W * std::exp2(-m.la * (later - now));
      if (!(std::fabs(w2 - WL) <= 1e-9 * WL + 1e-300)) violation("weight", strf("the weight at %d is %.12g, should be %.12g: ", later, w2, WL) + ctx);
      if (m.ps.empty()) { probe("empty_cluster_queried"); continue; }
      if (c.size() != (size_t)dim) violation("center", "the center has another dimension: " + ctx);
      for (int i = 0; i < dim; i++) if (!(std::fabs(c[i] - mc[i]) <= 1e-12 * M * (10 + m.ps.size()))) violation("center", strf("coordinate %d of the center is %.12g, should be %.12g: ", i + 1, c[i], mc[i]) + ctx);
      if (!close2(rad, r2, M, m.ps.size())) violation("radius", strf("the radius is %.12g, should be %.12g: ", rad, std::sqrt(r2)) + ctx);
      state(fnv(&w, 8));
      if (m.ps.size() > 2) nontrivial();
    }
  }
  sample(what);
}

// ------------------------------------------------------------------ C10
struct RefMC { std::vector<double> c, sq; double w = 0; int born = 0, edit = 0; };
static void amb(bool near_but_not_equal, const char *why) { if (near_but_not_equal) skip(why); }
static double ref_weight(const RefMC &m, int t, double l) { return m.w * std::exp2(-l * (t - m.edit)); }
static void ref_insert(RefMC &m, const std::vector<double> &p, int t, double l) {
  double nw = m.w == 0 ? 1 : m.w * std::exp2(-l * (t - m.edit)) + 1;
  if (m.c.empty()) { m.c.assign(p.size(), 0); m.sq.assign(p.size(), 0); }
  for (size_t i = 0; i < p.size(); i++) { m.c[i] += (p[i] - m.c[i]) / nw; m.sq[i] += (p[i] * p[i] - m.sq[i]) / nw; }
  m.w = nw; m.edit = t;
}
static double ref_radius(const RefMC &m) { double r = 0; for (size_t i = 0; i < m.c.size(); i++) r += m.sq[i] - m.c[i] * m.c[i]; return r > 0 ? std::sqrt(r) : 0; }
static int ref_nearest(const std::vector<RefMC> &v, const std::vector<double> &p) {
  int b = 0; double best = 1e300, second = 1e300;
  for (size_t i = 0; i < v.size(); i++) { double d = dist(v[i].c, p); if (d < best) { second = best; best = d; b = (int)i; } else second = std::min(second, d); }
  if (second - best < 1e-9) skip("two micro-clusters equally near");
  return b;
}
static Rows gen_den(int n, int d, double spread, double &eps, double &lambda) {
  Rows r;
  if (flip(GEN, 1, 7)) {      // many places: many initial clusters, then many outliers alive together, visited again and again
    int k = 1 + (int)gen(45), m = 40 + (int)gen(160), far = (int)gen(4), at = 0, left = 0;
    if (flip(GEN, 3, 4)) lambda = 0.01 + (double)gen(30) / 1000;
    probe("many_places");
    std::vector<std::vector<double>> c(k + m, std::vector<double>(d));
    for (int i = 0; i < k + m; i++) for (int q = 0; q < d; q++) c[i][q] = q == 0 ? i * eps * 5 : (double)gen(50);
    for (int i = 0; i < n; i++) {
      if (i < 1000) { at = (int)gen(k); if (far && flip(GEN, 1, 40)) at = k + (int)gen(m); }
      else if (left-- <= 0) { left = (int)gen(3); at = flip(GEN, 1, 12) ? (int)gen(k) : k + (int)gen(m); }
      std::vector<double> p = c[at];
      for (auto &x : p) x += ((double)gen(1u << 24) / (1u << 24) - 0.5) * eps * 0.8;
      r.push_back(p);
    }
    return r;
  }
  if (n > 1000 && flip(GEN, 1, 6)) {      // few places between passing points: clusters come and go, sometimes there is none
    int m = 1 + (int)gen(8), start = (int)gen(3), left = 0, at = 0;
    static const int PASS[] = {2, 10, 16, 19};
    int pass = PASS[gen(4)];
    probe(start ? "begins_with_noise" : "begins_dense");
    for (int i = 0; i < n; i++) {
      std::vector<double> p(d);
      bool place = i < 1000 ? !start && flip(GEN, 4, 5) : left > 0 || !flip(GEN, pass, 20);
      if (place) {
        if (left-- <= 0) { at = (int)gen(m); left = i < 1000 ? 0 : (int)gen(3); }
        for (int q = 0; q < d; q++) p[q] = (q ? 3.7 : at * eps * 7) + ((double)gen(1u << 24) / (1u << 24) - 0.5) * eps * 0.8;
      } else for (int q = 0; q < d; q++) p[q] = q ? (double)gen(1000) / 10 : -100 - eps * 4.13 * i;
      r.push_back(p);
    }
    return r;
  }
  if (n <= 999 && flip(GEN, 1, 2)) {      // a grid: distances that equal epsilon exactly
    int side = 4 + (int)gen(d == 1 ? 60 : d == 2 ? 14 : 5), holes = (int)gen(4);
    eps = 1 + (double)gen(d == 1 ? 4 : 3);
    probe("grid");
    for (int i = 0; i < n; i++) {
      std::vector<double> p(d);
      for (auto &x : p) { x = (double)gen(side); if (holes) x += std::floor(x / 3) * holes; }
      r.push_back(p);
    }
    return r;
  }
  if (d >= 3 && flip(GEN, 1, 3)) {      // stars: points in reach of one core point only, some just below or above the density threshold
    probe("stars");
    int k = 1 + (int)gen(20);
    std::vector<std::vector<double>> c(k, std::vector<double>(d));
    for (int i = 0; i < k; i++) for (int q = 0; q < d; q++) c[i][q] = q == 0 ? i * eps * (1.2037 + (double)gen(40) / 10) : (double)gen(5) * eps * 1.0137;
    int have = 0, at = 0, arms = 0, mixed = (int)gen(2);
    for (int i = 0; i < n; i++) {
      if (have-- <= 0) { at = (at + 1) % k; have = arms = 17 + (int)gen(8); }
      if (mixed) at = (int)gen(k);
      std::vector<double> p(d); double l = 0;
      for (auto &x : p) { x = (double)gen(2001) - 1000; l += x * x; }
      double rad = have == arms ? 0 : eps * (0.55031 + (double)gen(500) / 1000);
      for (int q = 0; q < d; q++) p[q] = c[at][q] + (l > 0 ? p[q] / std::sqrt(l) * rad : 0);
      r.push_back(p);
    }
    return r;
  }
  int nb = 1 + (int)gen(4);
  std::vector<std::vector<double>> b(nb, std::vector<double>(d));
  for (auto &c : b) for (auto &x : c) x = (double)gen(400) / 10 - 20;
  int noise = (int)gen(4), style = (int)gen(4), cur = 0;
  for (int i = 0; i < n; i++) {
    if (style == 1 || flip(GEN, 1, 30)) cur = (int)gen(nb);           // bursts, or mixed
    if (style == 2 && flip(GEN, 1, 60)) for (auto &x : b[cur]) x += (double)gen(21) / 10 - 1;      // drift
    if (style == 3 && i == n * 2 / 3) for (auto &c : b) for (auto &x : c) x += 15;                  // everything moves away
    std::vector<double> p(d);
    if (noise && flip(GEN, noise, 12)) { for (auto &x : p) x = (double)gen(1u << 24) / (1u << 24) * 60 - 30; }
    else for (int k = 0; k < d; k++) p[k] = b[cur][k] + ((double)gen(1u << 24) / (1u << 24) + (double)gen(1u << 24) / (1u << 24) - 1) * spread;
    r.push_back(p);
  }
  return r;
}
static Rows ref_denstream(const Rows &pts, double eps, double lambda) {
  int n = (int)pts.size(), init = std::min(n, 1000);
  double tpx = (1 / lambda) * std::log(2.0);
  if (std::fabs(tpx - std::round(tpx)) < 1e-9) skip("checking period within rounding");
  int Tp = (int)std::ceil(tpx);
  // density clustering by definition
  std::vector<std::vector<int>> nb(init);
  for (int i = 0; i < init; i++) {
    nb[i].push_back(i);
    for (int j = 0; j < i; j++) { double d = dist(pts[i], pts[j]); amb(std::fabs(d - eps) < 1e-9 && d != eps, "distance within rounding of epsilon"); if (d == eps) probe("distance_equals_epsilon"); if (d <= eps) { nb[i].push_back(j); nb[j].push_back(i); } }
  }
  std::vector<int> lab(init, -1); int k = 0;
  for (int i = 0; i < init; i++) if (lab[i] < 0 && nb[i].size() >= 20) {
    k++; std::vector<int> st = {i}; lab[i] = k;
    while (!st.empty()) { int a = st.back(); st.pop_back(); for (int b : nb[a]) if (nb[b].size() >= 20 && lab[b] < 0) { lab[b] = k; st.push_back(b); } }
  }
  std::vector<int> full = lab;
  for (int i = 0; i < init; i++) if (lab[i] < 0) for (int b : nb[i]) if (lab[b] > 0 && (full[i] < 0 || lab[b] < full[i])) full[i] = lab[b];
  int t = init / 20, per = init % 20;
  std::vector<RefMC> P(k), O;
  for (auto &m : P) m.born = t;
  for (int i = 0; i < init; i++) if (full[i] > 0) ref_insert(P[full[i] - 1], pts[i], t, lambda);
  for (int i = 0; i < init; i++) if (full[i] < 0) { probe("noise_in_initial_points"); break; }
  for (int i = init; i < n; i++) {
    if (++per == 20) { per = 0; t++; }
    bool done = false;
    auto fits = [&](const RefMC &m) {
      RefMC x = m; ref_insert(x, pts[i], t, lambda); double r = ref_radius(x);
      amb(std::fabs(r - eps) < 1e-7, "radius within rounding of epsilon");
      return r <= eps;
    };
    if (P.size()) { int a = ref_nearest(P, pts[i]); if (fits(P[a])) { ref_insert(P[a], pts[i], t, lambda); done = true; probe("merged_into_potential"); } }
    if (!done && O.size()) {
      int a = ref_nearest(O, pts[i]);
      if (fits(O[a])) {
        ref_insert(O[a], pts[i], t, lambda); done = true; probe("merged_into_outlier");
        double w = ref_weight(O[a], t, lambda);
        amb(std::fabs(w - 2) < 1e-9 && w != 2, "weight within rounding of the threshold");
        if (w > 2) { P.push_back(O[a]); O.erase(O.begin() + a); probe("promoted"); }
      }
    }
    if (!done) { RefMC x; x.born = t; ref_insert(x, pts[i], t, lambda); O.push_back(x); probe("new_outlier"); if (O.size() == 65) probe("many_outliers"); }
    if (t % Tp == 0 && per == 0) {
      if (P.empty() && O.size()) probe("check_without_potential");
      for (size_t a = 0; a < P.size();) {
        double w = ref_weight(P[a], t, lambda);
        amb(std::fabs(w - 2) < 1e-9 && w != 2, "weight within rounding of the threshold");
        if (w < 2) { P.erase(P.begin() + a); probe("potential_pruned"); } else a++;
      }
      for (size_t a = 0; a < O.size();) {
        double w = ref_weight(O[a], t, lambda), xi = (std::exp2(-lambda * (t - O[a].born + Tp)) - 1) / (std::exp2(-lambda * Tp) - 1);
        if (O[a].born == t) xi = 1;
        bool even = lambda == std::floor(lambda) && lambda * (t - O[a].born + Tp) < 40 && w == xi;     // powers of two: both exact
        if (even && O[a].born != t) probe("outlier_weight_equals_limit");
        amb(std::fabs(w - xi) < 1e-9 && O[a].born != t && !even, "outlier weight within rounding of its limit");
        if (w < xi) { O.erase(O.begin() + a); probe("outlier_pruned"); } else a++;
      }
    }
  }
  Rows out; for (auto &m : P) out.push_back(m.c);
  return out;
}
void check_C10() {
  env_benign(E_CHUNK | E_MEM | E_TIME);
  int jobs = 1 + (int)flip(GEN, 1, 3);
  bool one = flip(GEN, 1, 2);
  preprocessor *pp = nullptr;
  std::string all;
  for (int q = 0; q < jobs; q++) {
    int d = 1 + (int)gen(flip(GEN, 1, 8) ? 8 : 3);
    double eps = 0.4 + (double)gen(30) / 10, spread = eps * (0.4 + (double)gen(12) / 10);
    static const double L[] = {0.25, 0.1, 0.5, 0.05, 1, 3, 0.02};
    double lambda = L[gen(7)] + (double)gen(10) / 1000;
    int sz = (int)gen(6), n = sz == 0 ? (int)gen(20) : sz == 1 ? 20 + (int)gen(400) : sz == 2 ? 980 + (int)gen(40) : 1000 + (int)gen(sz == 5 ? 900 : 400);
    if (g_tier == "thorough" && sz == 5) n += (int)gen(2000);
    Rows pts = gen_den(n, d, spread, eps, lambda);
    std::string what = strf("%d points of %d dimensions, epsilon %g, lambda %g", n, d, eps, lambda);
    all += (q ? "; then " : "") + what;
    sample(all + ": " + show(pts, 6));
    Rows want = pts.empty() ? Rows() : ref_denstream(pts, strtod(strf("%.6f", eps).c_str(), 0), strtod(strf("%.6f", lambda).c_str(), 0));
    auto settle = [&](const Rows &got, double tol) {
      if (got.size() != want.size()) violation("center-count", strf("%zu centers, the reference has %zu: ", got.size(), want.size()) + show(got, 8) + " against " + show(want, 8) + ": " + all);
      std::vector<char> used(got.size(), 0);
      for (auto &w : want) {
        int hit = -1;
        for (size_t i = 0; i < got.size() && hit < 0; i++) if (!used[i] && got[i].size() == w.size() && dist(got[i], w) < tol) hit = (int)i;
        if (hit < 0) violation("center", "no center at " + show({w}) + ", reported are " + show(got, 8) + ": " + all);
        used[hit] = 1;
      }
    };
    if (q == 0 && n && flip(GEN, 1, 5)) {     // a whole run: the barcodes of the centres
      probe("whole_run");
      int dim = 1 + (int)gen(2);
      CsvOpt c; c.exact = true; c.decorate = flip(GEN, 1, 4);
      Rows seen; std::string csv = gen_csv(pts, seen, c);
      std::vector<std::string> args = {"-i", "in.csv", "-o", "out", "-e", strf("%.6f", eps), "-l", strf("%.6f", lambda), "-d", std::to_string(dim), "-pre", "denStream"};
      all = "LHF " + join(args, " ") + " on " + what; sample(all + ": " + show(pts, 6));
      double e = strtod(strf("%.6f", eps).c_str(), 0);
      fs_put("in.csv", csv); fs_mkdir("output");
      Run u = run_lhf(args);
      if (u.r.kind != Result::RETURNED && u.r.kind != Result::EXITED) violation("denstream-crash", "the run " + u.r.str() + ": " + all);
      if (u.rc != 0) violation("run-status", strf("fault-free run ended with status %d: ", u.rc) + all);
      settle(parse_rows(fs_get("output/DenStream_centroid_output.csv")), 1e-6 * (2 + d));
      bool tie; if (eps_ambiguous(want, e, tie)) skip("distance within rounding of epsilon");
      std::string err = check_barcodes(fs_get("out.csv"), want, e, dim, 2.5e-6);
      if (err.size()) violation("wrong-barcodes", err + "; centres " + show(want, 12) + "; " + all);
      auto l = split(fs_get("out_stats.csv"), '\n');
      if (l.size() != 7 || l[1].compare(0, 10, "DenStream,") || l[2].compare(0, 11, "DistMatrix,")) violation("stats-order", "the statistics do not begin with the preprocessor: " + all);
      state(want.size() * 7919 + dim);
      if (want.size() > 1) nontrivial();
      return;
    }
    // everything scaled by a power of two is the same stream, exactly
    int sc = flip(GEN, 1, 5) ? (int)gen(81) - 40 : 0;
    if (sc) { all += strf(", all scaled by 2^%d", sc); probe(sc < 0 ? "scaled_down" : "scaled_up"); }
    Rows big = pts; for (auto &x : big) for (auto &v : x) v = std::ldexp(v, sc);
    std::string ea = sc ? strf("%.17g", std::ldexp(strtod(strf("%.6f", eps).c_str(), 0), sc)) : strf("%.6f", eps);
    Cfg cfg = {{"epsilon", ea}, {"lambda", strf("%.6f", lambda)}, {"dimensions", "1"}, {"debug", "0"}, {"outputFile", "log"}};
    Rows got; bool conf = false;
    Result r = run_sut([&] {
      pipePacket p(cfg, "simplexTree");
      p.originalData = big;
      if (!pp || !one) pp = (new preprocessor())->newPreprocessor("denStream");
      conf = pp && pp->configPreprocessor(cfg);
      if (!conf) return;
      p = pp->runPreprocessor(p);
      got.assign(p.originalData.begin(), p.originalData.end());
    });
    if (!r.ok()) violation("denstream-crash", "DenStream " + r.str() + ": " + all);
    if (!conf) violation("denstream-config", "DenStream could not be configured: " + all);
    for (auto &x : got) for (auto &v : x) v = std::ldexp(v, -sc);
    settle(got, 1e-6);
    state(fnv(strf("%zu", got.size())) ^ (got.size() ? fnv(got[0].data(), 8) : 0));
    if (want.size() > 1) probe("several_centers");
    if (n > 1000) nontrivial();
  }
}

// ------------------------------------------------------------------ C11, C12: streams
static Rows gen_flow(int n, int dmax) {
  Rows r; int d = 1 + (int)gen(dmax), style = (int)gen(11), nb = 1 + (int)gen(4), cur = 0;
  if (style == 6) {     // many copies of few points, after a few single ones: averages that become exactly zero
    int singles = (int)gen(12), spots = 1 + (int)gen(4);
    n = std::min(n, 500);   // coinciding points make the intervals slow
    for (int i = 0; i < n; i++) {
      std::vector<double> p(d, 0);
      if (i < singles) for (auto &x : p) x = (double)gen(100) / 10;
      else if (i > 200 && flip(GEN, 1, 5)) for (auto &x : p) x = (double)gen(60) - 20;
      else p[0] = (double)gen(spots) * 3;
      r.push_back(p);
    }
    return r;
  }
  if (style == 9) {     // a lattice of exactly representable spacing, then arrivals on and next to the limits (1, 4 spacings, 5)
    double s = std::ldexp(1.0, (int)gen(5) - 3); int first = std::min(n, 200), perm = (int)gen(2), wide = d > 1 && flip(GEN, 1, 2) ? 10 : 1;
    std::vector<int> o(first); for (int i = 0; i < first; i++) o[i] = i;
    if (perm) for (int i = first - 1; i > 0; i--) std::swap(o[i], o[gen(i + 1)]);
    for (int i = 0; i < n; i++) {
      std::vector<double> p(d, 0);
      if (i < first) { p[0] = s * (o[i] / wide); if (wide > 1) p[1] = s * (o[i] % wide); }
      else {
        const double AT[] = {0, 1, 4 * s, 5, 1, 4 * s, s, 2};
        double at = AT[gen(8)], u = s / 64; int e = (int)gen(3) - 1;
        p[0] = flip(GEN, 1, 2) ? s * ((first - 1) / wide) + at + e * u : -at - e * u;
        if (flip(GEN, 1, 8)) p = r[i - 1 - gen(std::min(i, 210))];
      }
      r.push_back(p);
    }
    return r;
  }
  if (style == 10) {    // two or three places seen all the time until the first window is gone, and now and then a place never seen before
    int places = 2 + (int)gen(2), fresh = 0, left = 0; double sp = 0.3 * (1 + (double)gen(10)); unsigned rare = 8 + (unsigned)gen(60);
    if (n > 200) n = std::max(n, 420 + (int)gen(500));
    for (int i = 0; i < n; i++) {
      if (left > 0) left--;
      else if (i >= 200 && flip(GEN, 1, rare)) { cur = 10 + ++fresh; left = flip(GEN, 1, 3) ? (int)gen(4) : 0; }
      else cur = i < 200 ? 0 : (int)gen(places);
      std::vector<double> p(d);
      for (int k = 0; k < d; k++) p[k] = (k == 0 ? cur * 40.0 : 0.0) + (double)gen(1u << 20) / (1u << 20) * sp;
      r.push_back(p);
    }
    return r;
  }
  if (style >= 7) {     // visits to far places, each as long as it takes to become outdated or shorter: places revisited at that moment
    int places = 2 + (int)gen(4), left = 0; double sp = 0.3 * (1 + (double)gen(10));
    for (int i = 0; i < n; i++) {
      if (i >= 200 && left-- <= 0) {
        int nx = (int)gen(places); cur = nx == cur ? (cur + 1) % places : nx;
        static const int LEN[] = {0, 0, 1, 1, 2, 3, 22, 23, 24, 25, 26, 27, 30};
        left = LEN[gen(13)];
      }
      std::vector<double> p(d);
      for (int k = 0; k < d; k++) p[k] = (k == 0 ? cur * 40.0 : 0.0) + (style == 8 ? (double)gen(4) : (double)gen(1u << 20) / (1u << 20) * sp);
      r.push_back(p);
    }
    return r;
  }
  std::vector<std::vector<double>> b(nb, std::vector<double>(d));
  for (auto &c : b) for (auto &x : c) x = (double)gen(100) - 50;
  double spread = 0.2 * (1 + (double)gen(40));
  unsigned every = 5 + (unsigned)gen(60);
  for (int i = 0; i < n; i++) {
    if (i > 150 && flip(GEN, 1, every)) cur = (int)gen(nb);
    if (style == 4 && i > 150 && flip(GEN, 1, 30)) for (auto &x : b[cur]) x += (double)gen(41) - 20;
    std::vector<double> p(d);
    if (style == 5 && i > 2 && flip(GEN, 1, 4)) p = r[i - 1 - gen(std::min(i, 210))];
    else for (int k = 0; k < d; k++) p[k] = b[cur][k] + (style == 3 ? (double)gen(4) : (double)gen(1u << 20) / (1u << 20) * spread);
    if (style == 2 && i > 150 && flip(GEN, 1, 25)) for (auto &x : p) x += ((double)gen(3) - 1) * 30 + (double)gen(1000) / 100;
    r.push_back(p);
  }
  return r;
}
// the text of a stream; the intervals of windows of coinciding points are slow to compute, such streams are cut
static std::string flow_csv(const Rows &rows, Rows &seen, const CsvOpt &c, size_t most = 500) {
  std::string t = gen_csv(rows, seen, c);
  if (seen.size() <= most) return t;
  std::set<std::vector<double>> d(seen.begin(), seen.end());
  if (d.size() * 4 >= seen.size()) return t;
  Rows cut(seen.begin(), seen.begin() + (long)most); seen.clear();
  return gen_csv(cut, seen, c);
}
static bool stream_faults(const std::string &path, std::string &desc) {
  if (!flip(GEN, 1, 5)) return false;
  FaultSpec f; f.op = OP_READ; f.path = path; f.k = (long)env(env(2) ? 3 : 12); f.sticky = flip(ENV, 1, 2); f.act = A_FAIL; f.err = EIO;
  add_fault(f); desc += strf(", read number %ld fails", f.k + 1);
  return true;
}
struct Rec : simplexTree {
  std::function<void(const std::vector<double> &, const std::vector<std::vector<double>> &)> before;
  std::function<void(const std::vector<double> &, const std::vector<std::vector<double>> &, bool)> after;
  Rec(double e, int d) : simplexTree(e, std::vector<std::vector<double>>(), d) {}
  template <class V, class W> bool insertIt(V &v, W &w) {
    { SimScope s; if (before) before(v, w); }
    bool r = simplexTree::insertIterative(v, w);
    { SimScope s; if (after) after(v, w, r); }
    return r;
  }
  // whichever of these a tree declares is the one overridden
  using Pt = std::vector<double>; using Pts = std::vector<std::vector<double>>;
  bool insertIterative(Pt &v, Pts &w) { return insertIt(v, w); }
  bool insertIterative(const Pt &v, Pts &w) { return insertIt(const_cast<Pt &>(v), w); }
  bool insertIterative(const Pt &v, const Pts &w) { return insertIt(const_cast<Pt &>(v), const_cast<Pts &>(w)); }
};
void check_C11() {
  static const int SZ[] = {49, 50, 51, 52, 60, 100, 130};
  int n = flip(GEN, 1, 2) ? SZ[gen(7)] : (int)gen(flip(GEN, 1, 15) ? 3000 : 260);
  Rows rows = gen_flow(n, 3), seen; CsvOpt c; c.longlines = flip(GEN, 1, 6); c.decorate = flip(GEN, 1, 2);
  std::string csv = gen_csv(rows, seen, c);
  int dim = 1 + (int)gen(2);
  std::string ea; double eps;
  if (dim == 1) eps = pick_eps(Rows(seen.begin(), seen.begin() + std::min<size_t>(50, seen.size())), ea);
  else { ea = "0.3"; eps = 0.3; }
  Rows first(seen.begin(), seen.begin() + std::min<size_t>(50, seen.size()));
  std::string what = strf("stream of %zu points, %zu bytes, epsilon %s, dimension %d", seen.size(), csv.size(), ea.c_str(), dim);
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_put("in.csv", csv); fs_mkdir("output");
  bool faulty = stream_faults("in.csv", what);
  sample(what + ": " + show(seen, 8));
  size_t next = 50, calls = 0; std::string err;
  Rec *rec = nullptr; Listing l; int vc = 0, sc = 0; bool conf = false, pf = false;
  uint64_t f0 = faults_fired();
  Result r = run_sut([&] {
    Cfg cfg = {{"inputFile", "in.csv"}, {"epsilon", ea}, {"dimensions", std::to_string(dim)}, {"debug", "0"}, {"outputFile", "log"}, {"complexType", "simplexTree"}};
    pipePacket p(cfg, "simplexTree");
    rec = new Rec(eps, dim);
    rec->setConfig(cfg);
    rec->before = [&](const std::vector<double> &v, const std::vector<std::vector<double>> &w) {
      calls++;
      if (err.empty()) {
        if (next >= seen.size()) err = "more points arrive than the stream has";
        else if (v != seen[next]) err = strf("point %zu arrives as ", next + 1) + show({v}) + " instead of " + show({seen[next]});
        else if (w.size() != 50) err = strf("the window holds %zu points when point %zu arrives", w.size(), next + 1);
        else for (int k = 0; k < 50; k++) if (w[k] != seen[next - 50 + k]) { err = strf("position %d of the window is ", k + 1) + show({w[k]}) + " instead of " + show({seen[next - 50 + k]}) + strf(" when point %zu arrives", next + 1); break; }
      }
      next++;
    };
    p.complex = rec;
    basePipe *bp = (new basePipe())->newPipe("naivewindow", "simplexTree");
    conf = bp && bp->configPipe(cfg);
    if (!conf) return;
    p = bp->runPipeWrapper(p);
    pf = true;
    l = rec->getAllEdges(eps); vc = rec->vertexCount(); sc = rec->simplexCount();
  });
  bool fired = faults_fired() > f0;
  if (!r.ok()) violation("window-crash", "the naive window " + r.str() + ": " + what);
  if (!conf) violation("window-config", "the naive window could not be configured: " + what);
  if (err.size()) violation("wrong-window", err + ": " + what);
  size_t expect = seen.size() > 50 ? seen.size() - 50 : 0;
  if (!fired && calls != expect) violation("lost-points", strf("%zu points were evaluated instead of %zu: ", calls, expect) + what);
  if (fired && calls > expect) violation("lost-points", "too many points were evaluated: " + what);
  if (fired) probe("stream_cut_by_failure");
  bool filled = seen.size() >= 50 && (!fired || calls > 0 || vc > 0);
  if (!filled) {
    if (vc != 0 || sc != 0) violation("wrong-complex", strf("%d vertices in the complex of a stream that never filled the window: ", vc) + what);
    probe("window_never_full");
  } else {
    bool tie; if (eps_ambiguous(first, eps, tie) || tie) { probe("complex_ambiguous"); }
    else {
      auto want = vr_simplices(first, eps, dim, false);
      std::vector<std::vector<MSimp>> wm; for (auto &x : want) { wm.emplace_back(); for (auto &s : x) wm.back().push_back({std::set<unsigned>(s.v.begin(), s.v.end()), s.w}); }
      // weights to rounding only
      for (size_t d = 0; d < l.size() && d < wm.size(); d++) { std::map<std::set<unsigned>, double> m; for (auto &s : wm[d]) m[s.v] = s.w; for (auto &s : l[d]) { auto it = m.find(s.first); if (it != m.end() && near(it->second, s.second, 1e-9 * (1 + it->second))) s.second = it->second; } }
      std::string e = cmp_listing(l, wm, dim, 0, false);
      if (e.size()) violation("wrong-complex", e + ": " + what);
      if (vc != 50) violation("wrong-complex", strf("vertex count %d: ", vc) + what);
      probe("complex_compared");
    }
  }
  state(calls * 1000 + sc);
  if (calls > 1) nontrivial();
}

// ------------------------------------------------------------------ C12
struct WinModel {
  Rows win; std::vector<int> key, lab; std::map<int, int> maxkey; int nextkey = 0;
  std::vector<double> nn; std::vector<std::set<int>> nni; std::map<int, double> avg; std::map<int, int> cnt;
  bool fresh = true;           // nothing admitted yet: the averages come from one pass, exact when all distances are dyadic
  std::map<int, bool> even;    // afterwards: an average stays exact while all nearest-neighbour distances of the partition are one dyadic number
  static bool dyadic(double x) { return x >= 0 && x < 1e6 && x * 1048576 == std::floor(x * 1048576); }
  void evens() {
    std::map<int, std::set<double>> ds; for (size_t i = 0; i < win.size(); i++) ds[lab[i]].insert(nn[i]);
    std::map<int, bool> now;
    for (auto &x : ds) now[x.first] = cnt[x.first] == 1 || (x.second.size() == 1 && dyadic(*x.second.begin()) && (fresh || even[x.first]));
    even = now;
  }
  void stats() {
    size_t n = win.size(); nn.assign(n, -1); nni.assign(n, {}); avg.clear(); cnt.clear();
    std::map<int, double> sum;
    for (size_t i = 0; i < n; i++) cnt[lab[i]]++;
    for (size_t i = 0; i < n; i++) {
      if (cnt[lab[i]] == 1) { avg[lab[i]] = -1; continue; }
      double best = 1e300;
      std::vector<double> ds(n, 1e300);
      for (size_t j = 0; j < n; j++) if (j != i && lab[j] == lab[i]) { ds[j] = dist(win[i], win[j]); best = std::min(best, ds[j]); }
      nn[i] = best;
      for (size_t j = 0; j < n; j++) if (ds[j] <= best + 1e-12 * (1 + best)) nni[i].insert((int)j);
      sum[lab[i]] += best;
    }
    for (auto &s : sum) avg[s.first] = s.second / cnt[s.first];
    evens();
  }
  struct Dec { bool admit = false; int evict = -1, target = -1; bool doubt = false; const char *rule = ""; };
  Dec decide(const std::vector<double> &v) {
    Dec d;
    std::vector<double> ds; for (auto &w : win) ds.push_back(dist(v, w));
    int ni = (int)(std::min_element(ds.begin(), ds.end()) - ds.begin());
    double nnd = ds[ni];
    auto close = [&](double a, double b) { if (std::fabs(a - b) < 1e-9 * (1 + std::fabs(b)) && a != b) d.doubt = true; };
    bool exact = fresh;
    for (size_t i = 0; i < nn.size() && exact; i++) exact = dyadic(nn[i]);
    if (!fresh && even[lab[ni]]) { exact = true; }
    auto close_avg = [&](double a, double b) {
      if (std::fabs(a - b) >= 1e-9 * (1 + std::fabs(b))) return;
      if (exact && a == b) probe(fresh ? "tie_in_average" : "tie_in_average_later"); else d.doubt = true;
    };
    if (nnd != 0 && nnd < 1e-9) d.doubt = true;
    if (avg.size() == 1) {
      int L = lab[0]; double a = avg[L];
      if (nnd == 0) { d.rule = "duplicate_rejected"; return d; }
      close_avg(a, 0.25); close(nnd, 1);
      if (a != 0 && std::fabs(a) < 1e-9) d.doubt = true;
      if (a <= 0.25 && nnd <= 1) { d.rule = "dense_rejected"; return d; }
      if (a != 0) close_avg(nnd / a, 4);
      if (a == 0 || nnd / a > 4) { d.admit = true; d.evict = 0; d.target = L + 1; d.rule = "pure_new_partition"; return d; }
      d.rule = "pure_rejected"; return d;
    }
    int P = lab[ni];
    for (size_t i = 0; i < ds.size(); i++) if (lab[i] != P && ds[i] - nnd < 1e-9) { d.doubt = true; }
    int M = *std::max_element(lab.begin(), lab.end());
    double a = avg[P];
    close(nnd, 5);
    if (a != -1) { close_avg(a, 0.25); close(nnd, 1); if (a != 0 && std::fabs(a) < 1e-9) d.doubt = true; if (a > 0) close_avg(nnd / a, 4); }
    if (nnd == 0) { d.target = P; d.rule = "on_a_point"; }
    else if (nnd > 5) { d.target = M + 1; d.rule = "far_new_partition"; }
    else if (a == -1) { d.target = P; d.rule = "joins_single_point"; }
    else if (a <= 0.25 && nnd <= 1) { d.target = P; d.rule = "joins_dense"; }
    else if (a > 0 && nnd / a <= 4) { d.target = P; d.rule = "joins_nearest"; }
    else { d.target = M + 1; d.rule = "sparse_new_partition"; }
    int small = -1, pts = 0;
    for (auto &k : maxkey) if (nextkey - k.second > 25 && (small == -1 || cnt[k.first] < pts)) { small = k.first; pts = cnt[k.first]; }
    d.admit = true;
    if (small != -1 && small == d.target && d.target == P) probe(pts == 1 ? "outdated_single_point_revisited" : pts == 2 ? "outdated_pair_revisited" : "outdated_partition_revisited");
    if (small == -1 && d.target != P && lab[0] != lab[1]) probe("oldest_and_next_of_different_partitions");
    if (small != -1) { d.evict = (int)(std::find(lab.begin(), lab.end(), small) - lab.begin()); probe("outdated_evicted"); }
    else if (d.target != P) d.evict = 0;
    else { d.evict = (int)(std::find_if(lab.begin(), lab.end(), [&](int x) { return x != d.target; }) - lab.begin()); }
    return d;
  }
  void apply(const Dec &d, const std::vector<double> &v) {
    int L = lab[d.evict];
    win.erase(win.begin() + d.evict); key.erase(key.begin() + d.evict); lab.erase(lab.begin() + d.evict);
    if (std::find(lab.begin(), lab.end(), L) == lab.end()) { maxkey.erase(L); probe("partition_vanished"); }
    win.push_back(v); key.push_back(nextkey); lab.push_back(d.target); maxkey[d.target] = nextkey; nextkey++; fresh = false;
    stats();
  }
};
#ifndef SIM_NO_WHITEBOX
static std::string cmp_stats(const WinModel &m, const simplexBase *x = nullptr) {
  const auto &v = *slidingWindow::defaultVals;
  size_t n = m.win.size();
  if (std::vector<int>(v.windowKeys.begin(), v.windowKeys.end()) != m.key) return "the keys of the window's points are wrong";
  for (size_t i = 0; i < n; i++) if (i >= v.partitionLabels.size() || v.partitionLabels[i] != m.lab[i]) return strf("point %zu of the window is in partition %d, should be in %d", i + 1, i < v.partitionLabels.size() ? v.partitionLabels[i] : -99, m.lab[i]);
  if (v.nnDists.size() != n || v.nnIndices.size() != n) return strf("%zu distances and %zu indices of nearest neighbours for %zu points", v.nnDists.size(), v.nnIndices.size(), n);
  for (size_t i = 0; i < n; i++) {
    if (!near(v.nnDists[i], m.nn[i], 1e-9 * (1 + std::fabs(m.nn[i])))) return strf("the nearest-neighbour distance of point %zu is %.12g, recomputed %.12g", i + 1, v.nnDists[i], m.nn[i]);
    if (m.nni[i].empty() ? v.nnIndices[i] != -1 : !m.nni[i].count(v.nnIndices[i])) return strf("the nearest neighbour of point %zu is %d, recomputed %d", i + 1, v.nnIndices[i], m.nni[i].empty() ? -1 : *m.nni[i].begin());
  }
  for (auto &a : v.avgNNDistPartitions) { auto it = m.avg.find(a.first); if (it == m.avg.end()) return strf("an average is kept for partition %d, which has no points", a.first); if (!near(a.second, it->second, 1e-9 * (1 + std::fabs(it->second)))) return strf("the average nearest-neighbour distance of partition %d is %.12g, recomputed %.12g", a.first, a.second, it->second); }
  if (v.avgNNDistPartitions.size() != m.avg.size()) return "a partition has no average nearest-neighbour distance";
  for (auto &c : m.cnt) { auto it = v.numPointsPartn.find(c.first); if (it == v.numPointsPartn.end() || it->second != c.second) return strf("partition %d counts %d points, has %d", c.first, it == v.numPointsPartn.end() ? 0 : it->second, c.second); }
  for (auto &c : v.numPointsPartn) if (c.second != 0 && !m.cnt.count(c.first)) return strf("partition %d counts %d points, has none", c.first, c.second);
  if (std::map<int, int>(v.maxKeys.begin(), v.maxKeys.end()) != m.maxkey) return "the time of the last admission to a partition is wrong";
  if (x) {
    const auto &dm = x->distMatrix;
    if (dm.size() != n) return strf("the distance matrix has %zu rows", dm.size());
    for (size_t i = 0; i < n; i++) {
      if (dm[i].size() != n) return strf("row %zu of the distance matrix has %zu entries", i + 1, dm[i].size());
      for (size_t j = i + 1; j < n; j++) { double d = dist(m.win[i], m.win[j]); if (!near(dm[i][j], d, 1e-9 * (1 + d))) return strf("the distance of points %zu and %zu of the window is kept as %.12g, recomputed %.12g", i + 1, j + 1, dm[i][j], d); }
    }
  }
  return "";
}
#else
static std::string cmp_stats(const WinModel &, const simplexBase * = nullptr) { return ""; }
#endif
void check_C12() {
  static const int SZ[] = {199, 200, 201, 230, 300};
  int n = flip(GEN, 1, 5) ? SZ[gen(5)] : 200 + (int)gen(flip(GEN, 1, 40) ? 2500 : g_tier == "thorough" ? 1200 : 350);
  Rows rows = gen_flow(n, 3), seen; CsvOpt c; c.decorate = flip(GEN, 1, 4);
  std::string csv = flow_csv(rows, seen, c);
  std::string what = strf("stream of %zu points", seen.size());
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_put("in.csv", csv); fs_mkdir("output");
  stream_faults("in.csv", what);
  sample(what + ": " + show(seen, 8) + " ... " + (seen.size() > 206 ? show(Rows(seen.begin() + 200, seen.begin() + 206)) : ""));
  WinModel m; WinModel::Dec dec;
  size_t next = 200, calls = 0, admitted = 0; std::string err, cls; bool stop = false, pending = false; std::vector<double> pv;
  auto fail = [&](const char *k, const std::string &e) { if (err.empty()) { cls = k; err = strf("when point %zu arrives: ", next + 1) + e; } };
  auto settle = [&] { if (pending) { m.apply(dec, pv); pending = false; } };
  auto cmp_win = [&](const std::vector<std::vector<double>> &w) {
    if (w.size() != m.win.size()) { fail("wrong-window", strf("the window holds %zu points", w.size())); return; }
    for (size_t i = 0; i < w.size(); i++) if (w[i] != m.win[i]) { fail("wrong-window", strf("position %zu of the window is ", i + 1) + show({w[i]}) + ", should be " + show({m.win[i]})); return; }
  };
  bool conf = false, finished = false;
  Rec *rec = nullptr;
  uint64_t f0 = faults_fired();
  Result r = run_sut([&] {
    Cfg cfg = {{"inputFile", "in.csv"}, {"epsilon", "0.000001"}, {"dimensions", "1"}, {"debug", "0"}, {"outputFile", "log"}, {"complexType", "simplexTree"}, {"twist", "false"}, {"collapse", "false"}, {"upscale", "false"}};
    pipePacket p(cfg, "simplexTree");
    rec = new Rec(1e-6, 1);
    rec->setConfig(cfg);
    rec->before = [&](const std::vector<double> &v, const std::vector<std::vector<double>> &w) {
      calls++;
      if (err.size() || stop) return;
      if (next >= seen.size()) { fail("wrong-window", "more points arrive than the stream has"); return; }
      if (next == 200) {
        for (int i = 0; i < 200; i++) { m.win.push_back(seen[i]); m.key.push_back(i); m.lab.push_back(0); }
        m.maxkey[0] = 199; m.nextkey = 200; m.stats();
      }
      settle();
      if (v != seen[next]) { fail("wrong-window", "the point is " + show({v}) + " instead of " + show({seen[next]})); return; }
      cmp_win(w);
      if (err.empty()) { std::string e = cmp_stats(m, calls % 37 == 1 ? rec : nullptr); if (e.size()) fail("wrong-statistics", e); }
      if (err.size()) return;
      dec = m.decide(v);
      if (dec.doubt) { stop = true; probe("stopped_within_rounding"); return; }
      probe(strf("rule_%s", dec.rule).c_str());
    };
    rec->after = [&](const std::vector<double> &v, const std::vector<std::vector<double>> &w, bool ok) {
      if (err.size() || stop) return;
      if (ok != dec.admit) { fail("wrong-admission", strf("it is %s, the rules (%s) say otherwise", ok ? "admitted" : "rejected", dec.rule)); return; }
      if (ok) {
        admitted++;
        Rows x = m.win; x.erase(x.begin() + dec.evict);
        if (std::vector<std::vector<double>>(w) != x) {
          int at = -1; for (size_t i = 0; i < m.win.size() && at < 0; i++) if (i >= w.size() || w[i] != m.win[i]) at = (int)i;
          fail("wrong-eviction", strf("position %d of the window is removed, the rules (%s) remove position %d", at + 1, dec.rule, dec.evict + 1)); return;
        }
        pending = true; pv = v;
      } else if (std::vector<std::vector<double>>(w) != m.win) { fail("wrong-window", "a rejected point changes the window"); return; }
      next++;
      if (m.cnt.size() > 1) probe("several_partitions");
      state((uint64_t)m.cnt.size() * 1000 + m.cnt.begin()->second);
    };
    p.complex = rec;
    basePipe *bp = (new basePipe())->newPipe("slidingwindow", "simplexTree");
    conf = bp && bp->configPipe(cfg);
    if (!conf) return;
    p = bp->runPipeWrapper(p);
    SimScope s;
    finished = true;
  });
  bool fired = faults_fired() > f0;
  if (!r.ok()) violation("window-crash", "the sliding window " + r.str() + ": " + what);
  if (!conf) violation("window-config", "the sliding window could not be configured: " + what);
  if (err.size()) violation(cls, err + ": " + what);
  size_t expect = seen.size() > 200 ? seen.size() - 200 : 0;
  if (fired ? calls > expect : calls != expect) violation("lost-points", strf("%zu points were evaluated instead of %zu: ", calls, expect) + what);
  if (fired) probe("stream_cut_by_failure");
  if (finished && calls && !stop) { settle(); std::string e = cmp_stats(m, rec); if (e.size()) violation("wrong-statistics", "at the end: " + e + ": " + what); }
  if (admitted > 1) nontrivial();
}

// ------------------------------------------------------------------ C20, window dumps
void ck::dump_windows() {
  static const int SZ[] = {150, 200, 201, 299, 300, 301, 400};
  int n = flip(GEN, 1, 2) ? SZ[gen(7)] : 200 + (int)gen(g_tier == "thorough" ? 700 : 330);
  if (flip(GEN, 1, 20)) { n = 1190 + (int)gen(60); probe("more_than_ten_dumps"); }   // two-digit numbers
  Rows rows = gen_flow(n, 3), seen; CsvOpt c; c.decorate = flip(GEN, 1, 4);
  std::string csv = flow_csv(rows, seen, c);
  std::string what = strf("sliding window over a stream of %zu points", seen.size());
  env_benign(E_CHUNK | E_MEM | E_TIME);
  fs_put("in.csv", csv);
  bool dir = !flip(ENV, 1, 8); if (dir) fs_mkdir("output"); else fault("no_dump_directory");
  stream_faults("in.csv", what);
  std::string hit; std::set<std::string> old;
  if (dir && flip(ENV, 1, 3)) for (int i = 0; i < 6; i++) if (flip(ENV, 1, 2)) {      // dumps of an earlier run
    std::string f = strf("output/SlidingWindow_%d_output.csv", i); old.insert(f);
    std::string t; for (int k = (int)env(300); k > 0; k--) t += "1,2,3,\n";
    fs_put(f, t); fault("old_dump");
  }
  if (flip(ENV, 1, 3)) {
    FaultSpec f; static const int ops[] = {OP_OPEN, OP_WRITE, OP_CLOSE};
    f.op = ops[env(3)]; f.path = hit = strf("output/SlidingWindow_%d_output.csv", (int)env(4)); f.k = f.op == OP_WRITE ? (long)env(3) : 0; f.sticky = flip(ENV, 1, 2); f.act = A_FAIL; f.err = env(2) ? ENOSPC : EIO;
    add_fault(f); what += ", operation " + std::to_string(f.op) + " on " + hit + " fails";
  }
  sample(what + ": " + show(seen, 8));
  Rows cur; size_t calls = 0; bool conf = false, done = false;
  std::vector<Rows> want; std::string err;
  Result r = run_sut([&] {
    Cfg cfg = {{"inputFile", "in.csv"}, {"epsilon", "0.000001"}, {"dimensions", "1"}, {"debug", "0"}, {"outputFile", "log"}, {"complexType", "simplexTree"}, {"twist", "false"}, {"collapse", "false"}, {"upscale", "false"}};
    pipePacket p(cfg, "simplexTree");
    Rec *rec = new Rec(1e-6, 1);
    rec->setConfig(cfg);
    std::vector<double> pend; bool hasp = false;
    rec->before = [&](const std::vector<double> &, const std::vector<std::vector<double>> &w) {
      if (calls && (200 + calls) % 100 == 0) want.push_back(w);     // the window after that many arrivals
      calls++;
    };
    rec->after = [&](const std::vector<double> &v, const std::vector<std::vector<double>> &w, bool ok) { cur = w; if (ok) cur.push_back(v); };
    p.complex = rec;
    basePipe *bp = (new basePipe())->newPipe("slidingwindow", "simplexTree");
    conf = bp && bp->configPipe(cfg);
    if (!conf) return;
    p = bp->runPipeWrapper(p);
    done = true;
  });
  if (!r.ok()) violation("window-crash", "the sliding window " + r.str() + ": " + what);
  if (!conf || !done) violation("window-config", "the sliding window could not be configured: " + what);
  if (faults_fired()) probe("dump_or_stream_failed");
  if (calls) want.push_back(cur);          // at the end of the stream
  if (!dir) return;
  for (size_t i = 0; i < want.size() + 1; i++) {
    std::string f = strf("output/SlidingWindow_%zu_output.csv", i);
    if (f == hit) continue;
    if (i == want.size()) { if (calls && fs_exists(f) && !old.count(f)) violation("wrong-dump", f + " should not exist: " + what); continue; }
    if (!fs_exists(f)) violation("no-dump", "there is no " + f + ": " + what);
    Rows d;
    for (auto &l : split(fs_get(f), '\n')) { if (l.empty()) continue; d.emplace_back(); for (auto &x : split(l, ',')) if (x.size()) d.back().push_back(strtod(x.c_str(), 0)); }
    bool ok = d.size() == want[i].size(); size_t at = 0;
    for (size_t j = 0; ok && j < d.size(); j++) { ok = d[j].size() == want[i][j].size(); for (size_t k = 0; ok && k < d[j].size(); k++) ok = std::fabs(d[j][k] - want[i][j][k]) <= 1e-5 * std::fabs(want[i][j][k]) + 1e-12; if (!ok) at = j + 1; }
    if (!ok) violation("wrong-dump", f + strf(" holds %zu rows; the window then had %zu points; first difference in row %zu: ", d.size(), want[i].size(), at) + what);
  }
  probe("window_dumps_compared");
  if (want.size()) nontrivial();
  state(want.size() * 1000 + (cur.size() ? (uint64_t)(fnv(&cur.back()[0], 8) % 997) : 0));
}
