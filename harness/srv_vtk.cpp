// <file> <name> <ndims> {dim} {xmin} {xmax} <n> {value}
#include "srv.h"
#include "writeVTK.h"
using namespace srv;

static void handle(Tokens& t) {
  std::string file = t.hex(), name = t.hex();
  int nd = t.i();
  std::vector<size_t> dims(nd);
  std::vector<double> lo(nd), hi(nd);
  for (int i = 0; i < nd; ++i) dims[i] = t.u();
  for (int i = 0; i < nd; ++i) lo[i] = t.d();
  for (int i = 0; i < nd; ++i) hi[i] = t.d();
  std::vector<double> f(t.i());
  for (size_t i = 0; i < f.size(); ++i) f[i] = t.d();
  Capture c;
  writeVTK(file, dims, lo, hi, f, name);
}

int main() { return loop(handle); }
