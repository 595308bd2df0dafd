// one line is a history over one iterator object: build/all/begin/next/move/get/big/copy
#include "srv.h"
#include <memory>
#include "MultiArrayIter.h"
using namespace srv;

static void show(const std::vector<size_t>& v) {
  for (size_t i = 0; i < v.size(); ++i) fprintf(out(), "%s%zu", i? " ": "", v[i]);
  fputc('\n', out());
}

static void handle(Tokens& t) {
  std::unique_ptr<MultiArrayIter> it;
  int nd = 0;
  for (std::string op = t.word(); !op.empty(); op = t.word()) {
    if (op == "ctor" || op == "build") {
      nd = t.i();
      std::vector<size_t> lo(nd), hi(nd);
      for (int i = 0; i < nd; ++i) lo[i] = t.u();
      for (int i = 0; i < nd; ++i) hi[i] = t.u();
      bool rm = t.i() != 0;
      if (op == "ctor") it.reset(new MultiArrayIter(lo, hi, rm));
      else {
        if (!it.get()) it.reset(new MultiArrayIter);
        it->build(lo, hi, rm);
      }
    }
    else if (op == "n") fprintf(out(), "%zu\n", it->getNumberOfTerms());
    else if (op == "begin") it->begin();
    else if (op == "next") it->next();
    else if (op == "move") it->move(t.u());
    else if (op == "get") show(it->getIndices());
    else if (op == "lo") show(it->getLBegIndices());
    else if (op == "hi") show(it->getEndIndices());
    else if (op == "copy") { std::unique_ptr<MultiArrayIter> c(new MultiArrayIter(*it)); it.swap(c); }
    else if (op == "all") {
      it->begin();
      size_t n = it->getNumberOfTerms();
      if (n > 2000000) n = 2000000;
      for (size_t i = 0; i < n; ++i) { show(it->getIndices()); it->next(); }
      it->begin();
    }
    else if (op == "bigz") {
      std::vector<size_t> v(nd);
      for (int i = 0; i < nd; ++i) v[i] = t.u();
      fprintf(out(), "%zu\n", it->computeBigIndex(v));
    }
    else if (op == "bigi") {
      std::vector<int> v(nd);
      for (int i = 0; i < nd; ++i) v[i] = t.i();
      fprintf(out(), "%d\n", it->computeBigIndex(v));
    }
  }
}

int main() { return loop(handle); }
