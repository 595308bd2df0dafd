// Server over the Upwind class of one C++ program: -DUPWIND_SRC="...", -DDIMS_MIN=, -DDIMS_MAX=.
// A request is a script: "<nops> ops...", an op is one of
//   new k nd v.. lengths.. n..   adv k steps dt   f k   sum k   std k   vtk k file   del k   thr n
// Answers: "f k <count>" followed by lines as the class prints them (17 digits), "sum k x", "std k x".
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#define main upwind_program_main
#define private public
#include UPWIND_SRC
#undef private
#undef main
#include "srv.h"
#include <type_traits>
#ifdef _OPENMP
#include <omp.h>
#endif

#ifndef DIMS_MIN
#define DIMS_MIN 1
#endif
#ifndef DIMS_MAX
#define DIMS_MAX 4
#endif

struct Any {
  virtual ~Any() {}
  virtual void advect(int n, double dt) = 0;
  virtual double sum() = 0;
  virtual bool spread(double& x) = 0;
  virtual void save(const std::string& f) = 0;
  virtual void print() = 0;
  virtual std::string digits(const std::string& s) = 0;
};

template <class U> auto call_advect(U& u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) {
  u.advect(n, dt);
}
template <class U> auto call_advect(U& u, int n, double dt, long) -> decltype(u.advect(dt), void()) {
  for (int i = 0; i < n; ++i) u.advect(dt);
}
template <class U> auto call_std(U& u, double& x, int) -> decltype(u.std(), bool()) { x = u.std(); return true; }
template <class U> bool call_std(U&, double&, long) { return false; }

// The field as printed, "index value" a line.  print() that leaves out digits whatever the precision of
// the stream: the member f, if the class has one and it agrees with the digits printed.
template <class U> auto digits(U& u, const std::string& s, int) -> decltype(u.f.size() + u.f[0], std::string()) {
  std::istringstream is(s);
  std::ostringstream os;
  std::string line;
  size_t i = 0;
  os.precision(17);
  while (std::getline(is, line)) {
    std::string v = line.substr(line.find_last_of(' ') + 1);
    size_t n = 0;
    for (size_t k = 0; k < v.size() && v[k] != 'e' && v[k] != 'E'; ++k)
      n += v[k] >= (n ? '0' : '1') && v[k] <= '9';
    if (n > 7 || i >= u.f.size()) return s;
    double x = std::strtod(v.c_str(), 0), y = u.f[i];
    if (!(std::fabs(x - y) <= 1e-5 * std::fabs(y) || std::fabs(x - y) <= 1e-6)) return s;
    os << i++ << " " << y << '\n';
  }
  return i == u.f.size() ? os.str() : s;
}
template <class U> std::string digits(U&, const std::string& s, long) { return s; }

template <size_t N> struct Solver: Any {
  typedef Upwind<N> U;
  typedef typename std::conditional<
      std::is_constructible<U, const std::vector<double>&, const std::vector<double>&,
                            const std::vector<size_t>&>::value, size_t, int>::type I;
  std::unique_ptr<U> u;
  Solver(const std::vector<double>& v, const std::vector<double>& l, const std::vector<long long>& n) {
    std::vector<I> m(n.begin(), n.end());
    u.reset(new U(v, l, m));
  }
  void advect(int n, double dt) { call_advect(*u, n, dt, 0); }
  double sum() { return u->checksum(); }
  bool spread(double& x) { return call_std(*u, x, 0); }
  void save(const std::string& f) { u->saveVTK(f); }
  void print() { u->print(); }
  std::string digits(const std::string& s) { return ::digits(*u, s, 0); }
};

template <size_t N> static Any* make(size_t nd, const std::vector<double>& v, const std::vector<double>& l,
                                     const std::vector<long long>& n) {
  if (nd == N) return new Solver<N>(v, l, n);
  return make<N + 1>(nd, v, l, n);
}
template <> Any* make<DIMS_MAX + 1>(size_t, const std::vector<double>&, const std::vector<double>&,
                                    const std::vector<long long>&) {
  fprintf(stderr, "dimension count\n");
  exit(3);
}

static void handle(srv::Tokens& t) {
  std::map<int, std::unique_ptr<Any> > S;
  FILE* f = srv::out();
  int nops = t.i();
  for (int q = 0; q < nops; ++q) {
    std::string op = t.word();
    int k = t.i();
    if (op == "new") {
      int nd = t.i();
      std::vector<double> v(nd), l(nd);
      std::vector<long long> n(nd);
      for (int i = 0; i < nd; ++i) v[i] = t.d();
      for (int i = 0; i < nd; ++i) l[i] = t.d();
      for (int i = 0; i < nd; ++i) n[i] = t.i();
      S[k].reset(make<DIMS_MIN>(nd, v, l, n));
    }
    else if (op == "adv") { int n = t.i(); double dt = t.d(); S[k]->advect(n, dt); }
    else if (op == "f") {
      srv::Capture c;
      std::streamsize p = std::cout.precision(17);
      S[k]->print();
      std::cout.precision(p);
      std::string s = S[k]->digits(c.o.str());
      fprintf(f, "f %d\n%s\n", k, s.c_str());
    }
    else if (op == "sum") fprintf(f, "sum %d %.17g\n", k, S[k]->sum());
    else if (op == "std") {
      double x = 0;
      bool has = S[k]->spread(x);
      if (has) fprintf(f, "std %d %.17g\n", k, x); else fprintf(f, "std %d none\n", k);
    }
    else if (op == "vtk") { std::string n = t.hex(); S[k]->save(n); fprintf(f, "vtk %d\n", k); }
    else if (op == "del") S.erase(k);
    else if (op == "thr") {
#ifdef _OPENMP
      omp_set_num_threads(k);
#endif
    }
  }
}

int main() { return srv::loop(handle); }
