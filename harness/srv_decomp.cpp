// <nprocs> <ndims> {dim} <want boxes> <n direction queries> {rank dir...}; a first token "re"
// rebuilds the previous object instead of making a new one; -1 boxes: those of the ranks asked for and
// of their neighbours
#include "srv.h"
#include <memory>
#include "CubeDecomp.h"
using namespace srv;

static std::unique_ptr<CubeDecomp> obj;

static void show(const char* k, const std::vector<size_t>& v) {
  fprintf(out(), "%s", k);
  for (size_t i = 0; i < v.size(); ++i) fprintf(out(), " %zu", v[i]);
  fputc('\n', out());
}

static void handle(Tokens& t) {
  std::string how = t.word();
  int nprocs = t.i();
  int nd = t.i();
  std::vector<size_t> dims(nd);
  for (int i = 0; i < nd; ++i) dims[i] = t.u();
  bool ok;
  if (how == "re" && obj.get()) {
    ok = obj->build(nprocs, dims);
  }
  else if (how == "ctor") {
    obj.reset(new CubeDecomp(nprocs, dims));
    ok = !obj->getDecomp().empty();
  }
  else {
    obj.reset(new CubeDecomp);
    ok = obj->build(nprocs, dims);
  }
  fprintf(out(), "ok %d\n", (int) ok);
  show("decomp", obj->getDecomp());
  int boxes = t.i();
  if (!ok) return;
  for (int r = 0; r < boxes; ++r) {
    show("lo", obj->getBegIndices(r));
    show("hi", obj->getEndIndices(r));
  }
  int nq = t.i();
  for (int q = 0; q < nq; ++q) {
    int rk = t.i();
    std::vector<int> dir(nd);
    for (int i = 0; i < nd; ++i) dir[i] = t.i();
    int nb = obj->getNeighborRank(rk, dir);
    if (boxes == -1) {
      show("lo", obj->getBegIndices(rk));
      show("hi", obj->getEndIndices(rk));
      if (nb >= 0 && nb < nprocs) {
        show("lo", obj->getBegIndices(nb));
        show("hi", obj->getEndIndices(nb));
      }
    }
    fprintf(out(), "nb %d\n", nb);
  }
}

int main() { return loop(handle); }
