// parse <nopt> {type name default help} <argc> {arg} <nquery> {type name}
#include "srv.h"
#include <memory>
#include "CmdLineArgParser.h"
using namespace srv;

static void query(const CmdLineArgParser& p, const std::string& type, const std::string& name) {
  if (type == "d") fprintf(out(), "%.17g\n", p.get<double>(name));
  else if (type == "i") fprintf(out(), "%d\n", p.get<int>(name));
  else if (type == "b") fprintf(out(), "%d\n", (int) p.get<bool>(name));
  else fprintf(out(), "%s\n", tohex(p.get<std::string>(name)).c_str());
}

static void handle(Tokens& t) {
  // on the heap, exactly sized, so that a sanitizer sees every stray access
  std::unique_ptr<CmdLineArgParser> p(new CmdLineArgParser);
  p->setPurpose(t.hex());
  std::string foot = t.hex();
  if (!foot.empty()) p->addFootnote(foot);
  int nopt = t.i();
  for (int k = 0; k < nopt; ++k) {
    std::string type = t.word(), name = t.hex();
    if (type == "d") { double v = t.d(); p->set(name, v, t.hex()); }
    else if (type == "i") { int v = t.i(); p->set(name, v, t.hex()); }
    else if (type == "b") { bool v = t.i() != 0; p->set(name, v, t.hex()); }
    else { std::string v = t.hex(); p->set(name, v, t.hex()); }
  }
  int argc = t.i();
  std::vector<std::string> store;
  for (int k = 0; k < argc; ++k) store.push_back(t.hex());
  char** argv = (char**) malloc(sizeof(char*) * (argc + 1));
  for (int k = 0; k < argc; ++k) argv[k] = strdup(store[k].c_str());
  argv[argc] = 0;
  bool ok;
  std::string said, help;
  {
    Capture c;
    ok = p->parse(argc, argv);
    said = c.o.str();
  }
  for (int k = 0; k < argc; ++k) free(argv[k]);
  free(argv);
  {
    Capture c;
    p->help();
    help = c.o.str() + c.e.str();
  }
  fprintf(out(), "%d\n%s\n%s\n", (int) ok, tohex(said).c_str(), tohex(help).c_str());
  CmdLineArgParser empty;
  int nq = t.i();
  for (int k = 0; k < nq; ++k) {
    std::string type = t.word(), name = t.hex();
    query(*p, type, name);
    query(empty, type, name);
  }
}

int main() { return loop(handle); }
