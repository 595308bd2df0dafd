// Common part of the harness servers: one case per line on stdin (blank separated tokens, strings
// in hex), an answer in lines ended by "=END" on stdout.
#ifndef SRV_H
#define SRV_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>

namespace srv {

struct Tokens {
  std::istringstream is;
  explicit Tokens(const std::string& s): is(s) {}
  std::string word() { std::string w; is >> w; return w; }
  long long i() { return std::strtoll(word().c_str(), 0, 10); }
  unsigned long long u() { return std::strtoull(word().c_str(), 0, 10); }
  double d() { return std::strtod(word().c_str(), 0); }
  std::string hex() {  // "x" + hex digits
    std::string w = word(), r;
    for (size_t k = 1; k + 1 < w.size(); k += 2)
      r.push_back((char) std::strtol(w.substr(k, 2).c_str(), 0, 16));
    return r;
  }
};

inline std::string tohex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r = "x";
  for (size_t k = 0; k < s.size(); ++k) {
    unsigned char c = s[k];
    r.push_back(d[c >> 4]);
    r.push_back(d[c & 15]);
  }
  return r;
}

// captures what C++ and C functions write to standard output and error while alive
struct Capture {
  std::ostringstream o, e;
  std::streambuf *so, *se, *sl;
  Capture* outer;
  static Capture*& current() { static Capture* c = 0; return c; }
  Capture(): outer(current()) {
    current() = this;
    so = std::cout.rdbuf(o.rdbuf()); se = std::cerr.rdbuf(e.rdbuf()); sl = std::clog.rdbuf(e.rdbuf());
  }
  ~Capture() { std::cout.rdbuf(so); std::cerr.rdbuf(se); std::clog.rdbuf(sl); current() = outer; }
};

inline ssize_t to_out(void*, const char* s, size_t n) {
  if (Capture::current()) Capture::current()->o.write(s, n);
  return n;
}
inline ssize_t to_err(void*, const char* s, size_t n) {
  if (!Capture::current()) return write(2, s, n);
  Capture::current()->e.write(s, n);
  return n;
}

// answers go to the original stdout, whatever the code under test does with std::cout
inline FILE*& out() { static FILE* f = 0; return f; }

typedef void (*Handler)(Tokens&);

// to_out and to_err take what C functions write to stdout and stderr
inline int loop(Handler h, cookie_write_function_t* wo = to_out, cookie_write_function_t* we = to_err) {
  out() = fdopen(dup(1), "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  close(nul);
  cookie_io_functions_t fo = {0, wo, 0, 0}, fe = {0, we, 0, 0};
  stdout = fopencookie(0, "w", fo);
  stderr = fopencookie(0, "w", fe);
  setvbuf(stdout, 0, _IONBF, 0);
  setvbuf(stderr, 0, _IONBF, 0);
  std::string line;
  char* buf = 0;
  size_t cap = 0;
  for (;;) {
    ssize_t n = getline(&buf, &cap, stdin);
    if (n < 0) break;
    line.assign(buf, n);
    Tokens t(line);
    h(t);
    fputs("=END\n", out());
    fflush(out());
  }
  free(buf);
  return 0;
}

}
#endif
