// A program over the Filter class, driven by a script (the same on every rank): argv[1] is a file.
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "Filter.h"

extern "C" void mock_inside(int) __attribute__((weak));
static void inside(int on) { if (mock_inside) mock_inside(on); }

// the input function is a plain function pointer: what it returns is set here
static std::vector<double> table;
static std::vector<size_t> tdims;
static std::vector<double> coef;     // c0 + sum_i c_i x_i + c_n prod_i x_i
static std::vector<double> txmin, txmax;

static double byIndex(const std::vector<size_t>& inds) {
  size_t k = 0;
  for (size_t i = 0; i < tdims.size(); ++i) {
    if (i >= inds.size() || inds[i] >= tdims[i]) return NAN;
    k = k * tdims[i] + inds[i];
  }
  return table[k];
}
static double byPos(const std::vector<double>& x) {
  double r = coef[0], p = 1;
  for (size_t i = 0; i < x.size(); ++i) { r += coef[1 + i] * x[i]; p *= x[i]; }
  return r + coef[1 + x.size()] * p;
}
static double byPosTable(const std::vector<double>& x) {
  size_t k = 0;
  for (size_t i = 0; i < tdims.size(); ++i) {
    double q = (x[i] - txmin[i]) / (txmax[i] - txmin[i]) * tdims[i] - 0.5;
    double m = std::floor(q + 0.5);
    if (std::fabs(q - m) > 1e-6 || m < 0 || m >= tdims[i]) return NAN;
    k = k * tdims[i] + (size_t) m;
  }
  return table[k];
}

// the window on the side of an offset, as fetched from the neighbour there, and this rank's own
template <class D, class F> static auto window(F& f, D& dc, const std::vector<size_t>& dims, const std::vector<int>& o, int)
    -> decltype((void) f.fetch(dc.build(1, dims), f.getSideFromOffset(o))[0],
                (void) f.getWindowIter(dc.getNeighborRank(0, o), o)) {
  int rk, n;
  MPI_Comm_rank(MPI_COMM_WORLD, &rk);
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  if (!dc.build(n, dims)) return;
  inside(1);
  std::vector<int> side = f.getSideFromOffset(o);
  std::vector<int> dir(side);
  for (size_t i = 0; i < dir.size(); ++i) dir[i] = -side[i];
  int other = dc.getNeighborRank(rk, dir);
  const double* d = f.fetch(other, side);
  auto it = f.getWindowIter(other, side);
  size_t m = it.getNumberOfTerms();
  inside(0);
  for (size_t i = 0; i < m; ++i) {
    it.move(i);
    std::vector<size_t> x = it.getIndices();
    std::cerr << "inds = ";
    for (size_t j = 0; j < x.size(); ++j) std::cerr << x[j] << ' ';
    std::cerr << "data = " << d[i] << '\n';
  }
}
template <class D, class F> static void window(F&, D&, const std::vector<size_t>&, const std::vector<int>&, long) { std::cerr << "@none\n"; }
template <class F> static auto source(F& f, const std::vector<int>& o, int)
    -> decltype((void) f.printSrcDataWindow(f.getSideFromOffset(o))) {
  inside(1); f.printSrcDataWindow(f.getSideFromOffset(o)); inside(0);
}
template <class F> static void source(F&, const std::vector<int>&, long) { std::cerr << "@none\n"; }

static int run(std::istream& in, int slots) {
  int rk;
  MPI_Comm_rank(MPI_COMM_WORLD, &rk);
  std::vector<Filter*> F(slots, (Filter*) 0);
  std::vector<std::vector<size_t> > dims(slots);
  std::vector<std::vector<double> > lo(slots), hi(slots);
  std::string op;
  std::cerr.precision(17);
  std::cout.precision(17);
  while (in >> op) {
    if (op == "end") break;
    int k = 0;
    in >> k;
    if (op == "filter") {
      int nd, ns;
      in >> nd;
      dims[k].resize(nd); lo[k].resize(nd); hi[k].resize(nd);
      std::string w;
      for (int i = 0; i < nd; ++i) in >> dims[k][i];
      for (int i = 0; i < nd; ++i) { in >> w; lo[k][i] = strtod(w.c_str(), 0); }
      for (int i = 0; i < nd; ++i) { in >> w; hi[k][i] = strtod(w.c_str(), 0); }
      std::map<std::vector<int>, double> st;
      in >> ns;
      for (int s = 0; s < ns; ++s) {
        std::vector<int> o(nd);
        for (int i = 0; i < nd; ++i) in >> o[i];
        in >> w;
        st[o] = strtod(w.c_str(), 0);
      }
      inside(1);
      F[k] = new Filter(dims[k], lo[k], hi[k], st);
      bool ok = F[k]->isDecompValid();
      inside(0);
      std::cerr << "@valid " << k << ' ' << ok << '\n';
    }
    else if (op == "table" || op == "tablepos") {
      int n; std::string w;
      in >> n;
      table.resize(n);
      for (int i = 0; i < n; ++i) { in >> w; table[i] = strtod(w.c_str(), 0); }
      tdims = dims[k]; txmin = lo[k]; txmax = hi[k];
      if (F[k]) {
        inside(1);
        if (op == "table") F[k]->setInDataByIndices(byIndex);
        else F[k]->setInData(byPosTable);
        inside(0);
      }
    }
    else if (op == "affine") {
      std::string w;
      coef.resize(dims[k].size() + 2);
      for (size_t i = 0; i < coef.size(); ++i) { in >> w; coef[i] = strtod(w.c_str(), 0); }
      if (F[k]) { inside(1); F[k]->setInData(byPos); inside(0); }
    }
    else if (op == "vtk") {
      std::string f;
      in >> f;
      if (F[k]) { inside(1); F[k]->saveVTK(f); inside(0); }
    }
    else if (op == "win" || op == "src") {
      std::vector<int> o(dims[k].size());
      for (size_t i = 0; i < o.size(); ++i) in >> o[i];
      if (!F[k]) continue;
      CubeDecomp dc;
      std::cerr << '@' << op << ' ' << k << '\n';
      if (op == "win") window(*F[k], dc, dims[k], o, 0); else source(*F[k], o, 0);
      std::cerr << "@end\n";
    }
    else if (!F[k]) continue;
    else if (op == "apply") { inside(1); F[k]->applyFilter(); inside(0); }
    else if (op == "copy") { inside(1); F[k]->copyOutToIn(); inside(0); }
    else if (op == "out") {
      std::cerr << "@out " << k << '\n';
      inside(1); F[k]->printOutData(); inside(0);
      std::cerr << "@end\n";
    }
    else if (op == "in") {
      std::cerr << "@in " << k << '\n';
      inside(1); F[k]->printInData(); inside(0);
      std::cerr << "@end\n";
    }
    else if (op == "sumin" || op == "sumout") {
      inside(1);
      double s = F[k]->computeCheckSum(op == "sumin"? "input": "output");
      inside(0);
      if (rk == 0) std::cerr << "@sum " << k << ' ' << s << '\n';
    }
    else if (op == "del") { inside(1); delete F[k]; inside(0); F[k] = 0; }
    else if (op == "yield") MPI_Barrier(MPI_COMM_WORLD);
  }
  for (int k = 0; k < slots; ++k) { inside(1); delete F[k]; inside(0); }
  return 0;
}

extern "C" int filter_main(int argc, char** argv) {
  inside(0);
  MPI_Init(&argc, &argv);
  int rc;
  {
    std::ifstream in(argv[1]);
    rc = run(in, 4);
  }
  MPI_Finalize();
  // nothing of this program's own stays allocated
  std::vector<double>().swap(table); std::vector<size_t>().swap(tdims); std::vector<double>().swap(coef);
  std::vector<double>().swap(txmin); std::vector<double>().swap(txmax);
  return rc;
}

#ifdef DRIVER_MAIN
// many scripts, one after the other, under a real MPI: argv[1] holds them separated by "end", what
// rank r says goes to argv[2].r
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int rk;
  MPI_Comm_rank(MPI_COMM_WORLD, &rk);
  std::ifstream in(argv[1]);
  char name[64];
  snprintf(name, sizeof name, ".%d", rk);
  std::ofstream err((std::string(argv[2]) + name).c_str());
  std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
  std::cerr << std::nounitbuf;
  int n;
  in >> n;
  for (int i = 0; i < n; ++i) {
    std::cerr << "@script " << i << '\n';
    run(in, 4);
  }
  std::cerr << "@done\n";
  std::cerr.rdbuf(old);
  err.close();
  MPI_Finalize();
  return 0;
}
#endif
