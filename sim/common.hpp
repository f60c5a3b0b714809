// Workload generators and reference models shared by the checks.
#pragma once
#include <cmath>
#include <set>
#include <string>
#include <vector>
#include "sim.hpp"

int lhf_main(int, char **);       // LHF's main(), compiled with -Dmain=lhf_main

namespace ck {
typedef std::vector<std::vector<double>> Rows;

// ---- workloads (GEN stream)
struct CloudOpt { int nmin = 1, nmax = 12, dmin = 1, dmax = 3; bool plain = false;  int shape = -1; };
Rows gen_cloud(const CloudOpt &o);
// CSV text of the rows in a drawn formatting; `seen` gets the values a correct reader returns.
// plain: no decoration at all
struct CsvOpt { bool decorate = true; bool exact = false; bool longlines = false; };   // exact: tokens that read back as the very same doubles
std::string gen_csv(const Rows &rows, Rows &seen, const CsvOpt &o, std::string *desc = nullptr);
std::string show(const Rows &r, size_t max = 24);
std::string fmtd(double v);

// ---- geometry
double dist(const std::vector<double> &a, const std::vector<double> &b);

// ---- Vietoris-Rips persistence by definition
struct Bar { int d; double b, e; };
struct VR {
  std::vector<double> h0;           // deaths, ascending; n entries, essential ones equal eps
  std::vector<Bar> must, may;       // finite bars in degree >= 1: clearly non-zero length / numerically short
  bool fuzzy = false;               // some distances are equal up to rounding only
};
// bars of degree < dim of the filtration by diameters (< eps, or <= eps when closed)
VR vr_persistence(const Rows &pts, double eps, int dim, bool closed);
bool eps_ambiguous(const Rows &pts, double eps, bool &exact_tie);   // a distance is too close to eps
// empty string if the barcode file content is right; else what is wrong
std::string check_barcodes(const std::string &file, const Rows &pts, double eps, int dim, double tol = 1.5e-6);
bool parse_barcodes(const std::string &file, std::vector<Bar> &bars, std::string &err);
uint64_t bars_hash(const std::vector<Bar> &b);

// simplices of the Vietoris-Rips complex, by definition
struct Simp { std::vector<unsigned> v; double w; };
std::vector<std::vector<Simp>> vr_simplices(const Rows &pts, double eps, int maxdim, bool closed);

void dump_windows();
double pick_eps(const Rows &r, std::string &arg);
// ---- running LHF
struct Run { sim::Result r; int rc; std::string out; };
Run run_lhf(const std::vector<std::string> &args);
// random CSV tokens of a value
std::string token(double v, int style);
std::vector<std::string> split(const std::string &s, char c);
Rows parse_rows(const std::string &f);
std::string join(const std::vector<std::string> &v, const std::string &sep);
bool near(double a, double b, double tol);
}  // namespace ck
