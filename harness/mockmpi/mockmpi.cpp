// The simulated MPI and the server that runs programs under it.
//   argv: <lib.so> <scratch dir>
//   request: <nranks> <seed> <sched policy> <get policy> <sync policy> <repeat> <prog> <arg...hex>
//   prog is a symbol "int NAME(int argc, char** argv)" of the library
#include "mpi.h"
#include "../srv.h"
#include <dlfcn.h>
#include <ucontext.h>
#include <sys/stat.h>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <new>
#include <fstream>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define FIBERS 1
#endif

#ifdef __has_include
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif
#endif
#ifndef VALGRIND_MAKE_MEM_UNDEFINED
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) 0
#define VALGRIND_MAKE_MEM_NOACCESS(p, n) 0
#define VALGRIND_STACK_REGISTER(p, q) 0
#endif

typedef unsigned long long u64;

#ifdef __SANITIZE_ADDRESS__
static const size_t SLACK = 0;
#else
static const size_t SLACK = 16;
#endif

// ------------------------------------------------------------------------------------------
// bookkeeping of operator new by the code under test
static int g_cur = -1;            // rank that runs, -1: the scheduler
static bool g_inside = false;     // in the code under test
struct Hdr { size_t magic; size_t size; };
static long g_live = 0, g_bytes = 0;

static void* counted(size_t n) {
  Hdr* h = (Hdr*) malloc(n + sizeof(Hdr));
  if (!h) throw std::bad_alloc();
  h->magic = g_inside? 0xC0DEC0DEu: 0;
  h->size = n;
  if (g_inside) { g_live++; g_bytes += n; }
  return h + 1;
}
static void uncounted(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*) p - 1;
  if (h->magic == 0xC0DEC0DEu) { g_live--; g_bytes -= h->size; }
  h->magic = 0xDEAD;
  free(h);
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(MOCK_PLAIN_NEW)
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, size_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t) noexcept { uncounted(p); }
#endif

struct Outside {        // the simulation's own allocations do not count
  bool saved;
  Outside() { saved = g_inside; g_inside = false; }
  ~Outside() { g_inside = saved; }
};

// ------------------------------------------------------------------------------------------
// a stream buffer that does not use operator new
struct CBuf: public std::streambuf {
  char* p; size_t n, cap;
  CBuf(): p(0), n(0), cap(0) {}
  ~CBuf() { free(p); }
  void clear() { n = 0; }
  void add(const char* s, size_t k) {
    if (n + k > cap) { cap = 2*(n + k) + 256; p = (char*) realloc(p, cap); }
    memcpy(p + n, s, k); n += k;
  }
  int overflow(int c) { char ch = (char) c; if (c != EOF) add(&ch, 1); return 0; }
  std::streamsize xsputn(const char* s, std::streamsize k) { add(s, k); return k; }
};

// ------------------------------------------------------------------------------------------
// the world
typedef int (*Main)(int, char**);

enum State { READY, BLOCKED, DONE };
struct Coll;
struct Rank {
  ucontext_t ctx;
  char* stack;
  State state;
  long ncoll;              // collectives entered so far
  CBuf out, err;
  bool inited, finalized;
  int exit_code;
  void* lib;
  Main fn;
  const char* why;         // what it is blocked in
  bool (*ready)(int);      // when blocked: may it go on?
  void* wait_arg;
  long wait_k;
  bool saved_inside;
  double work, cost, origin;   // its clock
};
static std::vector<Rank*> R;
static int N = 0;
static ucontext_t sched_ctx;
static const size_t STACK = 1 << 19;

static std::vector<std::string> errors;
static bool dead = false;
static u64 rng;
static int sched_policy, get_policy, sync_policy;
static std::vector<int> prio;
static long steps;
static int g_argc; static char** g_argv;
static long n_get, n_fence, n_late, n_switch, n_coll;

static u64 rnd() {
  u64 z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

#ifdef FIBERS
static const void* main_bottom; static size_t main_size;
static void to_rank(int r) {
  void* fake;
  __sanitizer_start_switch_fiber(&fake, R[r]->stack, STACK);
  swapcontext(&sched_ctx, &R[r]->ctx);
  __sanitizer_finish_switch_fiber(fake, 0, 0);
}
static void to_sched(int r, bool last) {
  void* fake;
  __sanitizer_start_switch_fiber(last? 0: &fake, main_bottom, main_size);
  swapcontext(&R[r]->ctx, &sched_ctx);
  __sanitizer_finish_switch_fiber(fake, &main_bottom, &main_size);
}
#else
static void to_rank(int r) { swapcontext(&sched_ctx, &R[r]->ctx); }
static void to_sched(int r, bool) { swapcontext(&R[r]->ctx, &sched_ctx); }
#endif

static void leave(bool last = false) {   // the current rank gives the control back
  int r = g_cur;
  R[r]->saved_inside = g_inside;
  to_sched(r, last);
  g_inside = R[r]->saved_inside;
}

static void fail(const char* fmt, ...) {
  Outside o;
  char buf[600];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  char b2[700];
  snprintf(b2, sizeof b2, "rank %d: %s", g_cur, buf);
  errors.push_back(b2);
  dead = true;
  if (g_cur >= 0) for (;;) leave();      // never scheduled again
}

static void point() { if (dead) for (;;) leave(); n_switch++; leave(); }     // a scheduling point

static void block(const char* why, bool (*ready)(int), void* arg, long k) {
  Rank* me = R[g_cur];
  if (ready) { me->wait_arg = arg; me->wait_k = k; }
  me->why = why; me->ready = ready; me->state = BLOCKED;
  leave();
  if (dead) for (;;) leave();
}

// memory from MPI_Alloc_mem
struct Mem { size_t size; int rank; };
static std::map<char*, Mem> mem;
static std::vector<char*> graveyard;

static void poison(void* p, size_t n) {      // NaNs of a recognisable pattern
  unsigned char* c = (unsigned char*) p;
  for (size_t i = 0; i < n; ++i) c[i] = (i % 8 >= 6)? 0xFF: 0xA5;
}

// windows
struct WinPart { char* base; size_t size; int unit; bool made, freed; long nfence; int lastAssert;
                 std::set<int> locks; bool lockall; bool owned; u64 hash; std::set<long> got;
                 std::map<int, long> posts, completes, starts;       // general active target synchronisation: per partner
                 std::set<int> exposed, accessed; bool readp;
                 std::set<int> holders; bool exclusive; };           // of the lock on this part
struct Window { std::vector<WinPart> part; std::map<long, int> fenceAssert; std::map<long, int> fenceCount;
                std::map<long, int> fenceFlags; int nfreed; int ncreated; };
static std::vector<Window*> wins;
static u64 window_hash(const WinPart& p) {
  u64 h = 1469598103934665603ull;
  const unsigned char* c = (const unsigned char*) p.base;
  for (size_t i = 0; i < p.size; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
struct Op { bool put; int origin, target, win; char* obuf; size_t disp, bytes; long epoch; bool passive; bool pscw;
            std::vector<char> data; int acc, type; long id; };
static std::vector<Op> pending;
static long op_id;
static void combine_any(char* a, const char* b, int n, int type, int op);
static size_t tsize(int t);

static bool eligible(const Op& o) {
  if (o.passive) return true;
  if (o.pscw) return wins[o.win]->part[o.target].posts[o.origin] >= o.epoch;
  return wins[o.win]->part[o.target].nfence >= o.epoch;
}
static void complete(size_t k) {
  Op o = pending[k];
  pending.erase(pending.begin() + k);
  WinPart& t = wins[o.win]->part[o.target];
  if (t.freed || !t.base) { fail("a one-sided operation reaches the freed window %d of rank %d", o.win, o.target); return; }
  if (o.put) {
    bool same = window_hash(t) == t.hash;        // not stored to by its owner
    if (o.acc < 0 || o.acc == MPI_REPLACE) memcpy(t.base + o.disp, o.data.data(), o.bytes);
    else combine_any(t.base + o.disp, o.data.data(), (int) (o.bytes / tsize(o.type)), o.type, o.acc);
    if (same) t.hash = window_hash(t);
  }
  else memcpy(o.obuf, t.base + o.disp, o.bytes);
}
static void some_progress() {
  // operations may complete at any moment once the target has opened its epoch
  if (pending.empty()) return;
  if (get_policy == 1) return;                    // as late as possible
  for (int tries = 0; tries < 2; ++tries) {
    if (pending.empty()) return;
    if (get_policy == 2 && rnd() % 3) return;
    size_t k = rnd() % pending.size();
    if (eligible(pending[k])) complete(k);
  }
}

// collectives over the world
struct Coll {
  std::string sig;
  int arrived, left;
  std::vector<const void*> s; std::vector<void*> r;
  std::vector<size_t> n;
  std::vector<const void*> lazy;       // contributions that are not read yet
  std::vector<char> result;
  bool ready;
  int root;
  u64 seed;
};
static std::map<long, Coll> colls;

static Coll& enter(const char* fmt, ...) {
  Outside o;
  char buf[300];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  Rank* me = R[g_cur];
  if (!me->inited) fail("%s before MPI_Init", buf);
  if (me->finalized) fail("%s after MPI_Finalize", buf);
  long k = me->ncoll++;
  n_coll++;
  Coll& c = colls[k];
  if (c.arrived == 0) {
    c.sig = buf; c.left = 0; c.ready = false; c.s.assign(N, (const void*) 0); c.r.assign(N, (void*) 0); c.n.assign(N, 0); c.lazy.assign(N, (const void*) 0); c.seed = 0;
  }
  else if (c.sig != buf) {
    fail("collective calls do not match: %s here, %s on another rank", buf, c.sig.c_str());
  }
  c.arrived++;
  return c;
}
static bool all_in(int r) { return ((Coll*) R[r]->wait_arg)->arrived == N; }
static void wait_all(Coll& c, const char* why) {
  if (c.arrived < N) block(why, all_in, &c, 0);
}
static bool root_done(int r) { return ((Coll*) R[r]->wait_arg)->ready; }

static std::map<int, size_t> types;      // contiguous ones
static size_t tsize(int t) {
  switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG:
    case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: return 8;
  }
  if (types.count(t)) return types[t];
  fail("unknown datatype %d", t);
  return 1;
}

template <class T> static void combine(T* a, const T* b, int n, int op) {
  for (int i = 0; i < n; ++i) {
    if (op == MPI_SUM) a[i] = a[i] + b[i];
    else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_MIN) a[i] = b[i] < a[i]? b[i]: a[i];
    else if (op == MPI_MAX) a[i] = b[i] > a[i]? b[i]: a[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i];
    else if (op == MPI_LOR) a[i] = a[i] || b[i];
    else fail("unknown reduction %d", op);
  }
}
static void combine_any(char* a, const char* b, int n, int type, int op) {
  switch (type) {
    case MPI_DOUBLE: combine((double*) a, (const double*) b, n, op); break;
    case MPI_FLOAT: combine((float*) a, (const float*) b, n, op); break;
    case MPI_INT: combine((int*) a, (const int*) b, n, op); break;
    case MPI_UNSIGNED: combine((unsigned*) a, (const unsigned*) b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: combine((long*) a, (const long*) b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: combine((unsigned long*) a, (const unsigned long*) b, n, op); break;
    case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_BYTE: case MPI_CHAR: combine(a, b, n, op); break;
    default: fail("reduction of datatype %d", type);
  }
}

static std::set<int> dups;           // copies of the world
static void comm_ok(MPI_Comm c) {
  if (c != MPI_COMM_WORLD && !dups.count(c)) fail("unknown communicator %d", c);
}
static const char* of(MPI_Comm c) {
  static char b[2][40]; static int k;
  if (c == MPI_COMM_WORLD) return "";
  k = !k;
  snprintf(b[k], sizeof b[k], " on communicator %d", c);
  return b[k];
}

// messages
struct Msg {
  int src, dst, tag, comm, type; const char* sbuf; size_t n; std::vector<char> data;
  bool copied, sync, matched, done;
};
struct Req {
  int owner; bool send, waited;
  Msg* m;                               // of a receive: what it is matched with
  char* rbuf; size_t room; int src, tag, comm, type;
  long op;                              // of MPI_Rget
  Coll* coll; int kind, count, redop, root; void* cbuf;      // of a non-blocking collective
};
static std::vector<Req*> reqs;
static std::vector<Msg*> msgs;
static std::vector<std::vector<Msg*> > unexpected;      // per destination, in order of arrival
static std::vector<std::vector<Req*> > posted;          // per receiver
static bool fits(const Req* q, const Msg* m) {
  return q->comm == m->comm && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag);
}
static void fetch_data(Msg* m) {
  if (m->copied) return;
  m->data.assign(m->sbuf, m->sbuf + m->n);
  m->copied = true;
}
static void deliver(Req* q) {
  Msg* m = q->m;
  if (m->done) return;
  fetch_data(m);
  if (m->n > q->room) { fail("a message of %zu bytes for a receive of %zu", m->n, q->room); return; }
  if (m->type != q->type) { fail("a message of datatype %d for a receive of datatype %d", m->type, q->type); return; }
  if (m->n) memcpy(q->rbuf, m->data.data(), m->n);
  m->done = true;
}
static void match(Req* q, Msg* m) {
  q->m = m; m->matched = true;
  if (get_policy == 0 || (get_policy == 2 && rnd() % 3 == 0)) deliver(q);
}
static Req* new_req(bool send) {
  Req* q = new Req;
  q->owner = g_cur; q->send = send; q->waited = false; q->m = 0; q->rbuf = 0; q->room = 0; q->op = 0; q->coll = 0; q->cbuf = 0;
  q->src = q->tag = q->comm = q->type = 0;
  reqs.push_back(q);
  return q;
}
extern "C" {
static void take(Coll& c, int r);
static void reduce_into(Coll& c, void* r, int count, int type, int op);
}
enum { BARRIER, BCAST, REDUCE, ALLREDUCE };
static bool may_end(int r, Req* q) {
  if (q->op) return true;
  if (q->coll) {
    if (q->kind == BCAST) return q->root == r || q->coll->ready;
    if (q->kind == REDUCE && q->root != r && sync_policy != 1) return true;
    return q->coll->arrived == N;
  }
  if (!q->m) return false;
  return q->send? (q->m->copied || q->m->matched): true;
}
static bool req_ready(int r) { return may_end(r, (Req*) R[r]->wait_arg); }
static void end_req(Req* q) {
  if (q->op) {
    for (size_t k = 0; k < pending.size(); ++k) if (pending[k].id == q->op) { complete(k); break; }
  }
  else if (q->coll) {
    Coll& c = *q->coll;
    take(c, q->owner);
    if (q->kind == BCAST && q->root != q->owner) {
      take(c, q->root);
      memcpy(q->cbuf, c.s[q->root], c.n[q->root]);
    }
    if (q->kind == ALLREDUCE || (q->kind == REDUCE && q->root == q->owner)) reduce_into(c, q->cbuf, q->count, q->type, q->redop);
  }
  else if (q->send) fetch_data(q->m);
  else deliver(q);
  q->waited = true;
}
static void root_ok(int r) { if (r < 0 || r >= N) fail("root %d of %d ranks", r, N); }

extern "C" {

int MPI_Init(int*, char***) {
  point();
  Rank* me = R[g_cur];
  if (me->inited) fail("MPI_Init twice");
  me->inited = true;
  return 0;
}
int MPI_Init_thread(int* a, char*** b, int required, int* provided) {
  MPI_Init(a, b);
  *provided = required;
  return 0;
}
int MPI_Initialized(int* f) { *f = R[g_cur]->inited; return 0; }
int MPI_Finalized(int* f) { *f = R[g_cur]->finalized; return 0; }
int MPI_Finalize(void) {
  point();
  Coll& c = enter("MPI_Finalize");
  for (size_t i = 0; i < reqs.size(); ++i)
    if (reqs[i]->owner == g_cur && !reqs[i]->waited) fail("MPI_Finalize with a request that was not waited for");
  wait_all(c, "MPI_Finalize");
  if (!unexpected[g_cur].empty()) fail("MPI_Finalize: a message from rank %d was never received", unexpected[g_cur][0]->src);
  R[g_cur]->finalized = true;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) { fail("MPI_Abort(%d)", code); return 0; }
int MPI_Comm_rank(MPI_Comm comm, int* r) {
  comm_ok(comm);
  if (!R[g_cur]->inited || R[g_cur]->finalized) fail("MPI_Comm_rank outside MPI_Init..MPI_Finalize");
  *r = g_cur;
  return 0;
}
int MPI_Comm_size(MPI_Comm comm, int* s) {
  comm_ok(comm);
  if (!R[g_cur]->inited || R[g_cur]->finalized) fail("MPI_Comm_size outside MPI_Init..MPI_Finalize");
  *s = N;
  return 0;
}
// A rank's clock shows what its data transfers took, from an origin of its own. Each takes the same time on a rank.
double MPI_Wtime(void) { return R[g_cur]->origin + R[g_cur]->work + 1e-9 * (double) steps; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char* n, int* len) { strcpy(n, "simulated"); *len = 9; return 0; }
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* copy) {
  Outside o; point(); comm_ok(comm);
  Coll& c = enter("MPI_Comm_dup%s", of(comm));
  *copy = 1000 + (int) R[g_cur]->ncoll;
  dups.insert(*copy);
  wait_all(c, "MPI_Comm_dup");
  return 0;
}
int MPI_Comm_free(MPI_Comm* comm) {
  Outside o; point();
  if (*comm == MPI_COMM_WORLD) fail("MPI_Comm_free of MPI_COMM_WORLD");
  comm_ok(*comm);
  enter("MPI_Comm_free%s", of(*comm));
  *comm = MPI_COMM_NULL;
  return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype old, MPI_Datatype* t) {
  Outside o;
  // the same type on every rank has the same number
  size_t size = n * tsize(old);
  *t = 100000 + old * 1000 + n;
  types[*t] = size;
  return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { Outside o; tsize(*t); return 0; }
int MPI_Type_free(MPI_Datatype* t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return 0; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int* f) { *f = 1; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* s, int* n) { strcpy(s, "simulated"); *n = 9; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint) p; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int) tsize(t); return 0; }

int MPI_Alloc_mem(MPI_Aint size, MPI_Info, void* baseptr) {
  Outside o;
  if (size < 0) fail("MPI_Alloc_mem of %ld bytes", size);
  char* p = (char*) malloc(size + SLACK);
  poison(p, size + SLACK);
  (void) VALGRIND_MAKE_MEM_UNDEFINED(p, size);
  (void) VALGRIND_MAKE_MEM_NOACCESS(p + size, SLACK);
  Mem m; m.size = size; m.rank = g_cur;
  mem[p] = m;
  *(void**) baseptr = p;
  return 0;
}
int MPI_Free_mem(void* base) {
  Outside o;
  point();
  char* p = (char*) base;
  std::map<char*, Mem>::iterator it = mem.find(p);
  if (it == mem.end()) fail("MPI_Free_mem of memory that is not (or no more) allocated");
  if (it->second.rank != g_cur) fail("MPI_Free_mem of another rank's memory");
  for (size_t w = 0; w < wins.size(); ++w) {
    WinPart& q = wins[w]->part[g_cur];
    if (q.made && !q.freed && q.base < p + it->second.size && p < q.base + q.size)
      fail("MPI_Free_mem of the memory of window %zu, which is not freed yet", w + 1);
  }
  for (size_t k = 0; k < pending.size(); ++k)
    if (!pending[k].put && pending[k].origin == g_cur && pending[k].obuf >= p && pending[k].obuf < p + it->second.size)
      fail("MPI_Free_mem of the buffer of a pending MPI_Get");
  poison(p, it->second.size);
#ifdef __SANITIZE_ADDRESS__
  free(p);
#else
  (void) VALGRIND_MAKE_MEM_NOACCESS(p, it->second.size);
  graveyard.push_back(p);
#endif
  mem.erase(it);
  return 0;
}

static std::vector<int> win_of_coll;   // index by creation order
static std::map<long, int> win_at;     // collective number -> window

static int new_window(long k) {
  std::map<long, int>::iterator it = win_at.find(k);
  if (it != win_at.end()) return it->second;
  Window* w = new Window;
  w->part.resize(N);
  for (int i = 0; i < N; ++i) {
    WinPart& p = w->part[i];
    p.base = 0; p.size = 0; p.unit = 1; p.made = p.freed = false; p.nfence = 0; p.lastAssert = MPI_MODE_NOSUCCEED;
    p.lockall = false; p.owned = false; p.hash = 0; p.readp = p.exclusive = false;
  }
  w->nfreed = 0; w->ncreated = 0;
  wins.push_back(w);
  win_at[k] = (int) wins.size() - 1;
  return (int) wins.size() - 1;
}

static int win_create(void* base, MPI_Aint size, int unit, MPI_Comm comm, MPI_Win* win, bool alloc) {
  Outside o;
  point();
  comm_ok(comm);
  if (size < 0) fail("window of size %ld", size);
  if (unit <= 0) fail("window with displacement unit %d", unit);
  Coll& c = enter(alloc? "MPI_Win_allocate": "MPI_Win_create");
  int w = new_window(R[g_cur]->ncoll - 1);
  WinPart& p = wins[w]->part[g_cur];
  p.base = (char*) base; p.size = size; p.unit = unit; p.made = true; p.owned = alloc;
  p.hash = window_hash(p);
  wins[w]->ncreated++;
  *win = w + 1;
  // the call may or may not synchronise
  if (sync_policy == 1 || (sync_policy == 2 && rnd() % 2)) wait_all(c, "MPI_Win_create");
  return 0;
}
int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm comm, MPI_Win* win) {
  return win_create(base, size, unit, comm, win, false);
}
int MPI_Win_allocate(MPI_Aint size, int unit, MPI_Info, MPI_Comm comm, void* baseptr, MPI_Win* win) {
  char* p = (char*) malloc(size + SLACK);
  poison(p, size + SLACK);
  (void) VALGRIND_MAKE_MEM_UNDEFINED(p, size);
  (void) VALGRIND_MAKE_MEM_NOACCESS(p + size, SLACK);
  *(void**) baseptr = p;
  return win_create(p, size, unit, comm, win, true);
}

static WinPart& win_ok(MPI_Win win, const char* what) {
  if (win < 1 || win > (int) wins.size() || !wins[win - 1]->part[g_cur].made)
    fail("%s on an invalid window handle %d", what, win);
  WinPart& p = wins[win - 1]->part[g_cur];
  if (p.freed) fail("%s on window %d, which was freed", what, win);
  return p;
}

int MPI_Win_free(MPI_Win* win) {
  Outside o;
  point();
  WinPart& p = win_ok(*win, "MPI_Win_free");
  for (size_t k = 0; k < pending.size(); ++k)
    if (pending[k].win == *win - 1 && pending[k].origin == g_cur)
      fail("MPI_Win_free of window %d with a pending operation", *win);
  if (p.nfence && !(p.lastAssert & MPI_MODE_NOSUCCEED)) {
    // the last fence opened an epoch that no fence closes: allowed only when nothing happened in it
  }
  if (!p.exposed.empty() || !p.accessed.empty() || p.lockall || !p.locks.empty()) fail("MPI_Win_free of window %d inside an epoch", *win);
  Coll& c = enter("MPI_Win_free(%d)", *win);
  wait_all(c, "MPI_Win_free");       // the standard asks for a barrier
  p.freed = true;
  if (p.owned) free(p.base);
  *win = MPI_WIN_NULL;
  return 0;
}

static bool fence_done(int r) {
  int w = *(int*) R[r]->wait_arg;
  long k = R[r]->wait_k;
  if (wins[w]->fenceCount[k] < N) return false;
  for (size_t i = 0; i < pending.size(); ++i)
    if (pending[i].win == w && !pending[i].passive && !pending[i].pscw && (pending[i].origin == r || pending[i].target == r)
        && pending[i].epoch < k) return false;
  return true;
}

int MPI_Win_fence(int assert_, MPI_Win win) {
  Outside o;
  point();
  n_fence++;
  WinPart& p = win_ok(win, "MPI_Win_fence");
  if (p.lockall || !p.locks.empty()) fail("MPI_Win_fence on window %d inside a lock epoch", win);
  int w = win - 1;
  enter("MPI_Win_fence(%d)", win);
  long k = ++p.nfence;
  Window* W = wins[w];
  const int both = MPI_MODE_NOPRECEDE | MPI_MODE_NOSUCCEED;
  if (W->fenceCount[k]++ == 0) W->fenceFlags[k] = assert_ & both;
  else if (W->fenceFlags[k] != (assert_ & both))
    fail("MPI_Win_fence on window %d: the ranks give different NOPRECEDE/NOSUCCEED assertions", win);
  bool mine = false;
  for (size_t i = 0; i < pending.size(); ++i)
    if (pending[i].win == w && pending[i].origin == g_cur) mine = true;
  if (assert_ & ~31) fail("MPI_Win_fence: unknown assertion bits %d", assert_);
  u64 hash = window_hash(p);
  if ((assert_ & MPI_MODE_NOSTORE) && hash != p.hash)
    fail("MPI_Win_fence(NOSTORE) on window %d, whose memory was stored to since the last fence", win);
  p.lastAssert = assert_;
  if (assert_ & MPI_MODE_NOPRECEDE) {
    if (mine) fail("MPI_Win_fence(NOPRECEDE) on window %d ends an epoch with an operation of this rank", win);
    // need not synchronise
    if (sync_policy == 1 || (sync_policy == 2 && rnd() % 2)) {
      int* a = (int*) malloc(sizeof(int)); *a = w;
      if (!fence_done(g_cur < 0? 0: (R[g_cur]->wait_arg = a, R[g_cur]->wait_k = k, g_cur)))
        block("MPI_Win_fence", fence_done, a, k);
      free(a);
    }
  }
  else {
    if (mine) n_late++;
    int* a = (int*) malloc(sizeof(int)); *a = w;
    R[g_cur]->wait_arg = a; R[g_cur]->wait_k = k;
    if (!fence_done(g_cur)) block("MPI_Win_fence", fence_done, a, k);
    free(a);
    if (wins[w]->part[g_cur].got.count(k - 1) && hash != wins[w]->part[g_cur].hash)
      fail("window %d was stored to by its owner in an epoch in which another rank reads it", win);
  }
  wins[w]->part[g_cur].hash = window_hash(wins[w]->part[g_cur]);
  return 0;
}

static bool lock_free(int r) {
  WinPart* t = (WinPart*) R[r]->wait_arg;
  return R[r]->wait_k == MPI_LOCK_EXCLUSIVE? t->holders.empty(): !t->exclusive;
}
static void take_lock(int w, int target, int type) {
  WinPart& t = wins[w]->part[target];
  R[g_cur]->wait_arg = &t; R[g_cur]->wait_k = type;
  if (!lock_free(g_cur)) block("MPI_Win_lock", lock_free, &t, type);
  t.holders.insert(g_cur);
  t.exclusive = type == MPI_LOCK_EXCLUSIVE;
}
static void drop_lock(int w, int target) {
  WinPart& t = wins[w]->part[target];
  t.holders.erase(g_cur);
  t.exclusive = false;
}
int MPI_Win_lock(int type, int rank, int, MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_lock");
  if (rank < 0 || rank >= N) fail("MPI_Win_lock of rank %d of %d", rank, N);
  if (p.locks.count(rank) || p.lockall) fail("MPI_Win_lock of rank %d, which is locked already", rank);
  if (type != MPI_LOCK_EXCLUSIVE && type != MPI_LOCK_SHARED) fail("MPI_Win_lock of type %d", type);
  take_lock(win - 1, rank, type);
  p.locks.insert(rank);
  return 0;
}
static void finish_passive(int w, int target) {
  for (size_t i = 0; i < pending.size();) {
    if (pending[i].win == w && pending[i].origin == g_cur && pending[i].passive
        && (target < 0 || pending[i].target == target)) complete(i);
    else ++i;
  }
}
int MPI_Win_unlock(int rank, MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_unlock");
  if (!p.locks.count(rank)) fail("MPI_Win_unlock without a lock");
  finish_passive(win - 1, rank);
  p.locks.erase(rank);
  drop_lock(win - 1, rank);
  return 0;
}
int MPI_Win_lock_all(int, MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_lock_all");
  if (p.lockall || !p.locks.empty()) fail("MPI_Win_lock_all on window %d inside a lock epoch", win);
  for (int i = 0; i < N; ++i) take_lock(win - 1, i, MPI_LOCK_SHARED);
  p.lockall = true;
  return 0;
}
int MPI_Win_unlock_all(MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_unlock_all");
  if (!p.lockall) fail("MPI_Win_unlock_all without a lock");
  finish_passive(win - 1, -1);
  p.lockall = false;
  for (int i = 0; i < N; ++i) drop_lock(win - 1, i);
  return 0;
}
int MPI_Win_flush(int rank, MPI_Win win) { Outside o; point(); win_ok(win, "MPI_Win_flush"); finish_passive(win - 1, rank); return 0; }
int MPI_Win_flush_all(MPI_Win win) { Outside o; point(); win_ok(win, "MPI_Win_flush_all"); finish_passive(win - 1, -1); return 0; }
int MPI_Win_sync(MPI_Win win) { Outside o; point(); win_ok(win, "MPI_Win_sync"); return 0; }

// post, start, complete, wait
static std::map<int, std::vector<int> > groups;
static const std::vector<int>& group_ok(MPI_Group g, const char* what) {
  if (!groups.count(g)) fail("%s with an invalid group", what);
  return groups[g];
}
int MPI_Comm_group(MPI_Comm comm, MPI_Group* g) {
  Outside o; comm_ok(comm);
  std::vector<int> all(N);
  for (int i = 0; i < N; ++i) all[i] = i;
  *g = 1 + (groups.empty()? 0: groups.rbegin()->first);
  groups[*g] = all;
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int* ranks, MPI_Group* sub) {
  Outside o;
  std::vector<int> from = group_ok(g, "MPI_Group_incl"), to;
  std::set<int> seen;
  for (int i = 0; i < n; ++i) {
    if (ranks[i] < 0 || ranks[i] >= (int) from.size() || !seen.insert(ranks[i]).second) fail("MPI_Group_incl: rank %d", ranks[i]);
    to.push_back(from[ranks[i]]);
  }
  *sub = 1 + groups.rbegin()->first;
  groups[*sub] = to;
  return 0;
}
int MPI_Group_size(MPI_Group g, int* n) { *n = (int) group_ok(g, "MPI_Group_size").size(); return 0; }
int MPI_Group_free(MPI_Group* g) { Outside o; group_ok(*g, "MPI_Group_free"); groups.erase(*g); *g = MPI_GROUP_NULL; return 0; }

static bool all_posted(int r) {
  int w = *(int*) R[r]->wait_arg;
  WinPart& p = wins[w]->part[r];
  for (std::set<int>::iterator i = p.accessed.begin(); i != p.accessed.end(); ++i)
    if (wins[w]->part[*i].posts[r] < p.starts[*i]) return false;
  return true;
}
static bool all_completed(int r) {
  int w = *(int*) R[r]->wait_arg;
  WinPart& p = wins[w]->part[r];
  for (std::set<int>::iterator i = p.exposed.begin(); i != p.exposed.end(); ++i)
    if (p.completes[*i] < p.posts[*i]) return false;
  return true;
}
int MPI_Win_post(MPI_Group g, int, MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_post");
  const std::vector<int>& v = group_ok(g, "MPI_Win_post");
  if (!p.exposed.empty()) fail("MPI_Win_post on window %d inside an exposure epoch", win);
  p.exposed = std::set<int>(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); ++i) p.posts[v[i]]++;
  p.hash = window_hash(p);
  p.readp = false;
  return 0;
}
int MPI_Win_start(MPI_Group g, int, MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_start");
  const std::vector<int>& v = group_ok(g, "MPI_Win_start");
  if (!p.accessed.empty()) fail("MPI_Win_start on window %d inside an access epoch", win);
  p.accessed = std::set<int>(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); ++i) p.starts[v[i]]++;
  n_fence++;
  if (sync_policy == 1 || (sync_policy == 2 && rnd() % 2)) {
    int w = win - 1;
    R[g_cur]->wait_arg = &w;
    if (!all_posted(g_cur)) block("MPI_Win_start", all_posted, &w, 0);
  }
  return 0;
}
int MPI_Win_complete(MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_complete");
  int w = win - 1;
  bool mine = false;
  for (size_t i = 0; i < pending.size(); ++i)
    if (pending[i].win == w && pending[i].origin == g_cur && pending[i].pscw) mine = true;
  R[g_cur]->wait_arg = &w;
  if (mine && !all_posted(g_cur)) block("MPI_Win_complete", all_posted, &w, 0);
  if (mine) n_late++;
  for (size_t i = 0; i < pending.size();) {
    if (pending[i].win == w && pending[i].origin == g_cur && pending[i].pscw) complete(i);
    else ++i;
  }
  for (std::set<int>::iterator i = p.accessed.begin(); i != p.accessed.end(); ++i) wins[w]->part[*i].completes[g_cur]++;
  p.accessed.clear();
  return 0;
}
int MPI_Win_wait(MPI_Win win) {
  Outside o; point();
  WinPart& p = win_ok(win, "MPI_Win_wait");
  int w = win - 1;
  R[g_cur]->wait_arg = &w;
  if (!all_completed(g_cur)) block("MPI_Win_wait", all_completed, &w, 0);
  if (p.readp && window_hash(p) != p.hash)
    fail("window %d was stored to by its owner in an epoch in which another rank reads it", win);
  p.exposed.clear();
  p.hash = window_hash(p);
  return 0;
}

static bool part_made(int r) { return ((WinPart*) R[r]->wait_arg)->made; }

static int rma(bool put, void* origin, int ocount, int otype, int target, MPI_Aint disp, int tcount,
               int ttype, MPI_Win win, int acc = -1, bool need_passive = false, long* id = 0) {
  Outside o;
  point();
  const char* what = put? "MPI_Put": "MPI_Get";
  WinPart& p = win_ok(win, what);
  n_get++;
  R[g_cur]->work += R[g_cur]->cost;
  if (target == MPI_PROC_NULL) return 0;
  if (target < 0 || target >= N) fail("%s: target rank %d of %d", what, target, N);
  if (ocount < 0 || tcount < 0) fail("%s: negative count", what);
  size_t ob = ocount * tsize(otype), tb = tcount * tsize(ttype);
  if (ob != tb) fail("%s: origin has %zu bytes, target %zu", what, ob, tb);
  bool passive = p.lockall || p.locks.count(target);
  bool pscw = !passive && p.accessed.count(target);
  if (need_passive && !passive) fail("MPI_Rget on window %d outside a lock epoch", win);
  if (!passive && !pscw) {
    if (p.nfence == 0) fail("%s on window %d outside an epoch (no fence yet)", what, win);
    if (p.lastAssert & MPI_MODE_NOSUCCEED) fail("%s on window %d after a fence with NOSUCCEED: outside an epoch", what, win);
    if (put && (p.lastAssert & MPI_MODE_NOPUT)) { /* NOPUT speaks of the target's window */ }
  }
  Window* W = wins[win - 1];
  if (!W->part[target].made) {
    // wait until the target has created its window
    block(what, part_made, &W->part[target], 0);
  }
  WinPart& t = W->part[target];
  if (t.freed) fail("%s on window %d, which rank %d has freed", what, win, target);
  if (disp < 0 || (size_t) disp * t.unit + tb > t.size)
    fail("%s: bytes %ld..%ld are outside the window %d of rank %d (%zu bytes)", what, disp * (long) t.unit,
         (long) (disp * t.unit + tb), win, target, t.size);
  Op op;
  op.put = put; op.origin = g_cur; op.target = target; op.win = win - 1; op.obuf = (char*) origin;
  op.disp = disp * t.unit; op.bytes = tb; op.epoch = pscw? p.starts[target]: p.nfence; op.passive = passive; op.pscw = pscw;
  op.acc = acc; op.type = ttype; op.id = ++op_id;
  if (id) *id = op.id;
  if (put) op.data.assign((char*) origin, (char*) origin + ob);
  else {
    // the origin buffer must not overlap that of another pending operation; it is undefined until
    // the operation completes
    for (size_t k = 0; k < pending.size(); ++k)
      if (!pending[k].put && pending[k].origin == g_cur && pending[k].obuf < op.obuf + ob
          && op.obuf < pending[k].obuf + pending[k].bytes)
        fail("%s: the buffer is in use by another pending operation", what);
    poison(origin, ob);
  }
  if (!put && pscw) t.readp = true;
  if (!put && !passive && !pscw) t.got.insert(op.epoch);
  pending.push_back(op);
  if (get_policy == 0 && eligible(pending.back())) complete(pending.size() - 1);
  return 0;
}
int MPI_Get(void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp, int tcount,
            MPI_Datatype ttype, MPI_Win win) {
  return rma(false, origin, ocount, otype, target, disp, tcount, ttype, win);
}
int MPI_Put(const void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp,
            int tcount, MPI_Datatype ttype, MPI_Win win) {
  return rma(true, (void*) origin, ocount, otype, target, disp, tcount, ttype, win);
}

int MPI_Rget(void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp, int tcount,
             MPI_Datatype ttype, MPI_Win win, MPI_Request* q) {
  long id = -1;
  rma(false, origin, ocount, otype, target, disp, tcount, ttype, win, -1, true, &id);
  Outside o;
  Req* r = new_req(false);
  r->op = id;
  *q = (int) reqs.size();
  return 0;
}
int MPI_Accumulate(const void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp,
                   int tcount, MPI_Datatype ttype, MPI_Op op, MPI_Win win) {
  return rma(true, (void*) origin, ocount, otype, target, disp, tcount, ttype, win, op);
}

// point to point
static Req* send_req(const char* what, const void* b, int count, int t, int dst, int tag, int comm, bool sync) {
  point(); comm_ok(comm);
  if (!R[g_cur]->inited || R[g_cur]->finalized) fail("%s outside MPI_Init..MPI_Finalize", what);
  if (count < 0) fail("%s: negative count", what);
  if (tag < 0) fail("%s: tag %d", what, tag);
  R[g_cur]->work += R[g_cur]->cost;
  if (dst != MPI_PROC_NULL && (dst < 0 || dst >= N)) fail("%s: rank %d of %d", what, dst, N);
  Req* q = new_req(true);
  Msg* m = new Msg;
  msgs.push_back(m);
  m->src = g_cur; m->dst = dst; m->tag = tag; m->comm = comm; m->type = t; m->sbuf = (const char*) b;
  m->n = count * tsize(t); m->copied = m->matched = m->done = false;
  m->sync = sync || sync_policy == 1 || (sync_policy == 2 && rnd() % 2);
  q->m = m;
  if (dst == MPI_PROC_NULL) { m->copied = m->matched = m->done = true; return q; }
  if (!m->sync && get_policy != 1) fetch_data(m);
  std::vector<Req*>& v = posted[dst];
  for (size_t i = 0; i < v.size(); ++i)
    if (fits(v[i], m)) { Req* r = v[i]; v.erase(v.begin() + i); match(r, m); return q; }
  unexpected[dst].push_back(m);
  return q;
}
static Req* recv_req(const char* what, void* b, int count, int t, int src, int tag, int comm) {
  point(); comm_ok(comm);
  if (!R[g_cur]->inited || R[g_cur]->finalized) fail("%s outside MPI_Init..MPI_Finalize", what);
  if (count < 0) fail("%s: negative count", what);
  if (src != MPI_PROC_NULL && src != MPI_ANY_SOURCE && (src < 0 || src >= N)) fail("%s: rank %d of %d", what, src, N);
  Req* q = new_req(false);
  q->rbuf = (char*) b; q->room = count * tsize(t); q->src = src; q->tag = tag; q->comm = comm; q->type = t;
  if (src == MPI_PROC_NULL) {
    Msg* m = new Msg;
    msgs.push_back(m);
    m->src = src; m->dst = g_cur; m->tag = MPI_ANY_TAG; m->n = 0; m->sbuf = 0; m->type = t;
    m->copied = m->sync = m->matched = m->done = true;
    q->m = m;
    return q;
  }
  poison(b, q->room);
  // messages of one source stay in order, those of different sources need not
  std::vector<Msg*>& v = unexpected[g_cur];
  std::vector<size_t> first;
  std::set<int> seen;
  for (size_t i = 0; i < v.size(); ++i)
    if (fits(q, v[i]) && seen.insert(v[i]->src).second) first.push_back(i);
  if (!first.empty()) {
    size_t i = first[rnd() % first.size()];
    Msg* m = v[i];
    v.erase(v.begin() + i);
    match(q, m);
  }
  else posted[g_cur].push_back(q);
  return q;
}
static void finish(const char* what, Req* q, MPI_Status* st) {
  R[g_cur]->wait_arg = q;
  if (!may_end(g_cur, q)) block(what, req_ready, q, 0);
  end_req(q);
  if (st && q->m) { st->MPI_SOURCE = q->m->src; st->MPI_TAG = q->m->tag; st->bytes = q->m->n; }
}
static Req* req_ok(MPI_Request h, const char* what) {
  if (h < 1 || h > (int) reqs.size() || reqs[h - 1]->owner != g_cur || reqs[h - 1]->waited) { fail("%s on an invalid request", what); }
  return reqs[h - 1];
}
int MPI_Send(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm) {
  Outside o;
  Req* q = send_req("MPI_Send", b, count, t, dst, tag, comm, false);
  if (!q->m->sync) fetch_data(q->m);
  finish("MPI_Send", q, 0);
  return 0;
}
int MPI_Ssend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm) {
  Outside o;
  finish("MPI_Ssend", send_req("MPI_Ssend", b, count, t, dst, tag, comm, true), 0);
  return 0;
}
int MPI_Isend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* q) {
  Outside o;
  send_req("MPI_Isend", b, count, t, dst, tag, comm, false);
  *q = (int) reqs.size();
  return 0;
}
int MPI_Issend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* q) {
  Outside o;
  send_req("MPI_Issend", b, count, t, dst, tag, comm, true);
  *q = (int) reqs.size();
  return 0;
}
int MPI_Recv(void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* st) {
  Outside o;
  finish("MPI_Recv", recv_req("MPI_Recv", b, count, t, src, tag, comm), st);
  return 0;
}
int MPI_Irecv(void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* q) {
  Outside o;
  recv_req("MPI_Irecv", b, count, t, src, tag, comm);
  *q = (int) reqs.size();
  return 0;
}
int MPI_Wait(MPI_Request* h, MPI_Status* st) {
  Outside o;
  point();
  if (*h == MPI_REQUEST_NULL) return 0;
  Req* q = req_ok(*h, "MPI_Wait");
  if (q->send && !q->m->sync) fetch_data(q->m);       // the system finds room for it now
  finish("MPI_Wait", q, st);
  *h = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request* h, MPI_Status* st) {
  for (int i = 0; i < n; ++i) MPI_Wait(h + i, st? st + i: 0);
  return 0;
}
int MPI_Test(MPI_Request* h, int* flag, MPI_Status* st) {
  Outside o;
  point();
  *flag = 1;
  if (*h == MPI_REQUEST_NULL) return 0;
  Req* q = req_ok(*h, "MPI_Test");
  if (q->send && !q->m->sync) fetch_data(q->m);
  if (!may_end(g_cur, q) || rnd() % 3 == 0) { *flag = 0; return 0; }
  finish("MPI_Test", q, st);
  *h = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Testall(int n, MPI_Request* h, int* flag, MPI_Status* st) {
  Outside o;
  point();
  *flag = 0;
  for (int i = 0; i < n; ++i) {
    if (h[i] == MPI_REQUEST_NULL) continue;
    Req* q = req_ok(h[i], "MPI_Testall");
    if (q->send && !q->m->sync) fetch_data(q->m);
    if (!may_end(g_cur, q)) return 0;
  }
  if (rnd() % 3 == 0) return 0;
  for (int i = 0; i < n; ++i) {
    if (h[i] == MPI_REQUEST_NULL) continue;
    finish("MPI_Testall", req_ok(h[i], "MPI_Testall"), st? st + i: 0);
    h[i] = MPI_REQUEST_NULL;
  }
  *flag = 1;
  return 0;
}
struct Any { int n; MPI_Request* h; };
static bool any_ready(int r) {
  Any* a = (Any*) R[r]->wait_arg;
  for (int i = 0; i < a->n; ++i) if (a->h[i] != MPI_REQUEST_NULL && may_end(r, reqs[a->h[i] - 1])) return true;
  return false;
}
int MPI_Waitany(int n, MPI_Request* h, int* index, MPI_Status* st) {
  Outside o;
  point();
  std::vector<int> v;
  for (int i = 0; i < n; ++i) {
    if (h[i] == MPI_REQUEST_NULL) continue;
    Req* q = req_ok(h[i], "MPI_Waitany");
    if (q->send && !q->m->sync) fetch_data(q->m);
    v.push_back(i);
  }
  *index = MPI_UNDEFINED;
  if (v.empty()) return 0;
  Any a; a.n = n; a.h = h;
  R[g_cur]->wait_arg = &a;
  if (!any_ready(g_cur)) block("MPI_Waitany", any_ready, &a, 0);
  std::vector<int> ok;
  for (size_t i = 0; i < v.size(); ++i) if (may_end(g_cur, reqs[h[v[i]] - 1])) ok.push_back(v[i]);
  *index = ok[rnd() % ok.size()];
  finish("MPI_Waitany", reqs[h[*index] - 1], st);
  h[*index] = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Request_free(MPI_Request* h) {
  Outside o;
  point();
  Req* q = req_ok(*h, "MPI_Request_free");
  if (q->coll) fail("MPI_Request_free of the request of a collective operation");
  if (!q->send) fail("MPI_Request_free of the request of a receive");
  q->waited = true;                  // its buffer may still be read
  *h = MPI_REQUEST_NULL;
  return 0;
}
struct Look { int src, tag, comm; };
static Msg* found(int r, const Look& l) {
  Req q; q.src = l.src; q.tag = l.tag; q.comm = l.comm;
  for (size_t i = 0; i < unexpected[r].size(); ++i) if (fits(&q, unexpected[r][i])) return unexpected[r][i];
  return 0;
}
static bool can_see(int r) { return found(r, *(Look*) R[r]->wait_arg) != 0; }
static int probe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  point(); comm_ok(comm);
  Look l; l.src = src; l.tag = tag; l.comm = comm;
  Msg* m = found(g_cur, l);
  if (!m && !flag) { block("MPI_Probe", can_see, &l, 0); m = found(g_cur, l); }
  if (flag) *flag = m != 0;
  if (m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->bytes = m->n; }
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) { Outside o; return probe(src, tag, comm, 0, st); }
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) { Outside o; return probe(src, tag, comm, flag, st); }
int MPI_Sendrecv(const void* sb, int sc, MPI_Datatype stype, int dst, int stag, void* rb, int rc, MPI_Datatype rt,
                 int src, int rtag, MPI_Comm comm, MPI_Status* status) {
  Outside o;
  Req* s = send_req("MPI_Sendrecv", sb, sc, stype, dst, stag, comm, false);
  Req* r = recv_req("MPI_Sendrecv", rb, rc, rt, src, rtag, comm);
  finish("MPI_Sendrecv", r, status);
  if (!s->m->sync) fetch_data(s->m);
  finish("MPI_Sendrecv", s, 0);
  return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* count) {
  *count = st->bytes % tsize(t)? MPI_UNDEFINED: (int) (st->bytes / tsize(t));
  return 0;
}

int MPI_Barrier(MPI_Comm comm) {
  Outside o; point(); comm_ok(comm);
  Coll& c = enter("MPI_Barrier%s", of(comm));
  wait_all(c, "MPI_Barrier");
  return 0;
}
int MPI_Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  Coll& c = enter("MPI_Bcast(%zu bytes, root %d)%s", count * tsize(type), root, of(comm));
  size_t n = count * tsize(type);
  if (g_cur == root) { c.result.assign((char*) buf, (char*) buf + n); c.ready = true; }
  else {
    if (!c.ready) block("MPI_Bcast", root_done, &c, 0);
    memcpy(buf, c.result.data(), n);
  }
  return 0;
}
static void keep(Coll& c, const void* s, size_t n) {       // the contribution, copied at once
  char* p = (char*) malloc(n + 1);
  memcpy(p, s, n);
  c.s[g_cur] = p;
}
static void take(Coll& c, int r) {
  if (c.s[r] || !c.lazy[r]) return;
  char* p = (char*) malloc(c.n[r] + 1);
  memcpy(p, c.lazy[r], c.n[r]);
  c.s[r] = p;
}
static void reduce_into(Coll& c, void* r, int count, int type, int op) {
  // any association and order is allowed
  size_t n = count * tsize(type);
  std::vector<int> order(N);
  for (int i = 0; i < N; ++i) order[i] = i;
  for (int i = 0; i < N; ++i) take(c, i);
  if (c.seed == 0) c.seed = rnd() | 1;
  u64 seed = c.seed;
  for (int i = N - 1; i > 0; --i) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; std::swap(order[i], order[(seed >> 33) % (i + 1)]); }
  std::vector<char> acc((const char*) c.s[order[0]], (const char*) c.s[order[0]] + n);
  for (int i = 1; i < N; ++i) combine_any(&acc[0], (const char*) c.s[order[i]], count, type, op);
  memcpy(r, &acc[0], n);
}
int MPI_Reduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  Coll& c = enter("MPI_Reduce(%d of type %d, op %d, root %d)%s", count, type, op, root, of(comm));
  if (s == MPI_IN_PLACE) { if (g_cur != root) fail("MPI_IN_PLACE on a rank that is not the root"); s = r; }
  keep(c, s, count * tsize(type));
  if (g_cur == root) {
    wait_all(c, "MPI_Reduce");
    reduce_into(c, r, count, type, op);
  }
  else if (sync_policy == 1 || (sync_policy == 2 && rnd() % 2)) wait_all(c, "MPI_Reduce");
  return 0;
}
int MPI_Allreduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm);
  Coll& c = enter("MPI_Allreduce(%d of type %d, op %d)%s", count, type, op, of(comm));
  keep(c, s == MPI_IN_PLACE? r: s, count * tsize(type));
  wait_all(c, "MPI_Allreduce");
  reduce_into(c, r, count, type, op);
  return 0;
}
static int nonblocking(Coll& c, int kind, const void* s, void* r, size_t n, int count, int type, int op, int root, MPI_Request* h) {
  Req* q = new_req(false);
  q->coll = &c; q->kind = kind; q->count = count; q->type = type; q->redop = op; q->root = root; q->cbuf = r;
  c.n[g_cur] = n;
  if (s) c.lazy[g_cur] = s;
  // contributions are read at any moment until the request ends
  if (get_policy == 0 || (get_policy == 2 && rnd() % 3 == 0)) take(c, g_cur);
  if (kind == BCAST && root == g_cur) c.ready = true;
  bool receives = kind == ALLREDUCE || (kind == REDUCE && root == g_cur) || (kind == BCAST && root != g_cur);
  if (receives && r != s) poison(r, n);
  *h = (int) reqs.size();
  return 0;
}
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* h) {
  Outside o; point(); comm_ok(comm);
  return nonblocking(enter("MPI_Ibarrier%s", of(comm)), BARRIER, 0, 0, 0, 0, MPI_BYTE, 0, 0, h);
}
int MPI_Ibcast(void* b, int count, MPI_Datatype type, int root, MPI_Comm comm, MPI_Request* h) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  size_t n = count * tsize(type);
  return nonblocking(enter("MPI_Ibcast(%zu bytes, root %d)%s", n, root, of(comm)), BCAST, g_cur == root? b: 0, b, n, count, type, 0, root, h);
}
int MPI_Ireduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm, MPI_Request* h) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  Coll& c = enter("MPI_Ireduce(%d of type %d, op %d, root %d)%s", count, type, op, root, of(comm));
  if (s == MPI_IN_PLACE) { if (g_cur != root) fail("MPI_IN_PLACE on a rank that is not the root"); s = r; }
  return nonblocking(c, REDUCE, s, r, count * tsize(type), count, type, op, root, h);
}
int MPI_Iallreduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm, MPI_Request* h) {
  Outside o; point(); comm_ok(comm);
  Coll& c = enter("MPI_Iallreduce(%d of type %d, op %d)%s", count, type, op, of(comm));
  return nonblocking(c, ALLREDUCE, s == MPI_IN_PLACE? r: s, r, count * tsize(type), count, type, op, 0, h);
}
static int gather(const char* what, const void* s, int scount, int stype, void* r, int rcount, int rtype,
                  int root, bool all, const int* rcounts, const int* displs, MPI_Comm comm) {
  size_t n = scount * tsize(stype);
  if (n > 8) R[g_cur]->work += R[g_cur]->cost;
  Coll& c = enter("%s(type %d, root %d)%s", what, stype, root, of(comm));
  if (scount < 0) fail("%s: negative count", what);
  bool rec = all || g_cur == root;
  c.n[g_cur] = n;
  if (s == MPI_IN_PLACE) fail("%s: MPI_IN_PLACE is not simulated", what);
  keep(c, s, n);
  if (rec) {
    wait_all(c, what);
    for (int i = 0; i < N; ++i) {
      size_t rn = (rcounts? rcounts[i]: rcount) * tsize(rtype);
      if (c.n[i] != rn) fail("%s: rank %d sends %zu bytes, the receiver expects %zu", what, i, c.n[i], rn);
      memcpy((char*) r + (displs? displs[i] * tsize(rtype): i * rn), c.s[i], rn);
    }
  }
  else if (sync_policy == 1 || (sync_policy == 2 && rnd() % 2)) wait_all(c, what);
  return 0;
}
int MPI_Gather(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
               MPI_Datatype rtype, int root, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  return gather("MPI_Gather", s, scount, stype, r, rcount, rtype, root, false, 0, 0, comm);
}
int MPI_Allgather(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
                  MPI_Datatype rtype, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm);
  return gather("MPI_Allgather", s, scount, stype, r, rcount, rtype, -1, true, 0, 0, comm);
}
int MPI_Gatherv(const void* s, int scount, MPI_Datatype stype, void* r, const int* rcounts,
                const int* displs, MPI_Datatype rtype, int root, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  return gather("MPI_Gatherv", s, scount, stype, r, 0, rtype, root, false, rcounts, displs, comm);
}

int MPI_Scatter(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
                MPI_Datatype rtype, int root, MPI_Comm comm) {
  Outside o; point(); comm_ok(comm); root_ok(root);
  size_t rn = rcount * tsize(rtype);
  Coll& c = enter("MPI_Scatter(%zu bytes, root %d)%s", rn, root, of(comm));
  if (g_cur == root) {
    if (scount * tsize(stype) != rn) fail("MPI_Scatter: the root sends %zu bytes to each, receives %zu", scount * tsize(stype), rn);
    c.result.assign((char*) s, (char*) s + rn * N);
    c.ready = true;
  }
  else if (!c.ready) block("MPI_Scatter", root_done, &c, 0);
  if (r != MPI_IN_PLACE) memcpy(r, c.result.data() + rn * g_cur, rn);
  return 0;
}

// for drivers: the code under test allocates from here to there
void mock_inside(int on) { g_inside = on != 0; }
}

// ------------------------------------------------------------------------------------------
static void rank_entry(int r) {
#ifdef FIBERS
  __sanitizer_finish_switch_fiber(0, &main_bottom, &main_size);
#endif
  Rank* me = R[r];
  g_inside = true;
  {
    std::vector<char*>* argv;
    { Outside o; argv = new std::vector<char*>; for (int i = 0; i < g_argc; ++i) argv->push_back(strdup(g_argv[i])); argv->push_back(0); }
    try { me->exit_code = me->fn(g_argc, &(*argv)[0]); }
    catch (std::exception& e) { Outside o; fail("exception %s", e.what()); }
    { Outside o; for (int i = 0; i < g_argc; ++i) free((*argv)[i]); delete argv; }
  }
  g_inside = false;
  if (me->inited && !me->finalized) { fail("the program ended without MPI_Finalize"); }
  me->state = DONE;
  leave(true);
  abort();
}

static void pick_loop() {
  std::streambuf *so = std::cout.rdbuf(), *se = std::cerr.rdbuf();
  int last = 0;
  for (;;) {
    steps++;
    if (dead) break;
    some_progress();
    if (dead) break;
    std::vector<int> ready;
    bool all_done = true;
    for (int r = 0; r < N; ++r) {
      Rank* q = R[r];
      if (q->state != DONE) all_done = false;
      if (q->state == READY) ready.push_back(r);
      else if (q->state == BLOCKED && q->ready(r)) ready.push_back(r);
    }
    if (all_done) break;
    if (ready.empty()) {
      // only pending operations can unblock: they complete at the latest now
      bool any = false;
      std::vector<size_t> el;
      for (size_t k = 0; k < pending.size(); ++k) if (eligible(pending[k])) el.push_back(k);
      if (!el.empty()) { complete(el[rnd() % el.size()]); any = true; }
      if (any) continue;
      std::string s = "deadlock:";
      for (int r = 0; r < N; ++r) {
        char b[200];
        snprintf(b, sizeof b, " rank %d %s%s;", r, R[r]->state == DONE? "has ended": "waits in ", R[r]->state == DONE? "": R[r]->why);
        s += b;
      }
      errors.push_back(s);
      dead = true;
      break;
    }
    int r;
    if (sched_policy == 0) r = ready[rnd() % ready.size()];
    else if (sched_policy == 1) {          // run on until blocked, then by priority
      r = ready[0];
      bool cont = false;
      for (size_t i = 0; i < ready.size(); ++i) if (ready[i] == last) cont = true;
      if (cont && rnd() % 64) r = last;
      else for (size_t i = 0; i < ready.size(); ++i) if (prio[ready[i]] > prio[r]) r = ready[i];
    }
    else {                                 // strict priorities, changed now and then
      if (rnd() % 50 == 0) prio[rnd() % N] = (int) (rnd() % 1000);
      r = ready[0];
      for (size_t i = 0; i < ready.size(); ++i) if (prio[ready[i]] > prio[r]) r = ready[i];
    }
    last = r;
    R[r]->state = READY;
    g_cur = r;
    std::cout.rdbuf(&R[r]->out); std::cerr.rdbuf(&R[r]->err); std::clog.rdbuf(&R[r]->err);
    to_rank(r);
    std::cout.rdbuf(so); std::cerr.rdbuf(se); std::clog.rdbuf(se);
    g_cur = -1;
    g_inside = false;
    if (steps > 20000000) { errors.push_back("no end after 20 million scheduling steps"); dead = true; }
  }
  std::cout.rdbuf(so); std::cerr.rdbuf(se);
}

static std::string libpath, dir;
static std::vector<void*> libs;

static void* lib_for(int r) {
  while ((int) libs.size() <= r) {
    char name[4096];
    snprintf(name, sizeof name, "%s/rank%zu-%d.so", dir.c_str(), libs.size(), (int) getpid());
    { std::ifstream a(libpath.c_str(), std::ios::binary); std::ofstream b(name, std::ios::binary); b << a.rdbuf(); }
    chmod(name, 0755);
    void* h = dlopen(name, RTLD_NOW | RTLD_LOCAL);
    unlink(name);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    libs.push_back(h);
  }
  return libs[r];
}

static void run_once(const std::string& prog, u64 seed) {
  errors.clear(); dead = false; rng = seed * 0x2545F4914F6CDD1Dull + 88172645463325252ull; steps = 0;
  for (size_t i = 0; i < wins.size(); ++i) delete wins[i];
  wins.clear(); pending.clear();
  for (std::map<long, Coll>::iterator it = colls.begin(); it != colls.end(); ++it)
    for (size_t i = 0; i < it->second.s.size(); ++i) free((void*) it->second.s[i]);
  colls.clear(); win_at.clear(); mem.clear();
  for (size_t i = 0; i < reqs.size(); ++i) delete reqs[i];
  for (size_t i = 0; i < msgs.size(); ++i) delete msgs[i];
  reqs.clear(); msgs.clear(); dups.clear(); groups.clear(); types.clear(); op_id = 0;
  unexpected.assign(N, std::vector<Msg*>()); posted.assign(N, std::vector<Req*>());
  for (size_t i = 0; i < graveyard.size(); ++i) free(graveyard[i]);
  graveyard.clear();
  prio.assign(N, 0);
  for (int i = 0; i < N; ++i) prio[i] = (int) (rnd() % 1000);
  for (int r = 0; r < N; ++r) {
    if ((int) R.size() <= r) {
      Rank* q = new Rank;
      q->stack = (char*) malloc(STACK);
      (void) VALGRIND_STACK_REGISTER(q->stack, q->stack + STACK);
      R.push_back(q);
    }
    Rank* q = R[r];
    q->state = READY; q->ncoll = 0; q->out.clear(); q->err.clear(); q->inited = q->finalized = false;
    q->exit_code = -1; q->why = ""; q->ready = 0; q->saved_inside = false;
    u64 h = (seed * 1000003ull + r + 1) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    q->work = 0; q->cost = 0.25 + (double) (h % 4096) / 1024; q->origin = (double) (h / 4096 % 1000);
    q->lib = lib_for(r);
    q->fn = (Main) dlsym(q->lib, prog.c_str());
    if (!q->fn) { fprintf(stderr, "no symbol %s\n", prog.c_str()); exit(3); }
    getcontext(&q->ctx);
    q->ctx.uc_stack.ss_sp = q->stack; q->ctx.uc_stack.ss_size = STACK; q->ctx.uc_link = 0;
    makecontext(&q->ctx, (void (*)()) rank_entry, 1, r);
  }
  pick_loop();
}

static void handle(srv::Tokens& t) {
  N = t.i();
  u64 seed = t.u();
  sched_policy = t.i(); get_policy = t.i(); sync_policy = t.i();
  int repeat = t.i();
  std::string prog = t.word();
  int n = t.i();
  std::vector<std::string> args;
  for (int i = 0; i < n; ++i) args.push_back(t.hex());
  std::vector<char*> av;
  for (int i = 0; i < n; ++i) av.push_back(&args[i][0]);
  av.push_back(0);
  g_argc = n; g_argv = &av[0];
  FILE* f = srv::out();
  n_get = n_fence = n_late = n_switch = n_coll = 0;
  long grown = 0, bytes = 0;
  for (int k = 0; k < repeat && !dead; ++k) {
    long before = g_live, bb = g_bytes;
    run_once(prog, seed);
    grown = g_live - before; bytes = g_bytes - bb;
  }
  for (size_t i = 0; i < errors.size(); ++i) fprintf(f, "error %s\n", srv::tohex(errors[i]).c_str());
  if (!dead) {
    int wl = 0; long ml = 0;
    for (size_t i = 0; i < wins.size(); ++i)
      for (int r = 0; r < N; ++r) if (wins[i]->part[r].made && !wins[i]->part[r].freed) wl++;
    for (std::map<char*, Mem>::iterator it = mem.begin(); it != mem.end(); ++it) { ml++; }
    fprintf(f, "leak %d %ld %ld %ld\n", wl, ml, grown, bytes);
    for (std::map<char*, Mem>::iterator it = mem.begin(); it != mem.end(); ++it) free(it->first);
  }
  fprintf(f, "stats %ld %ld %ld %ld %ld\n", n_get, n_fence, n_late, n_switch, (long) wins.size());
  for (int r = 0; r < N; ++r) {
    fprintf(f, "out %s\n", srv::tohex(std::string(R[r]->out.p? R[r]->out.p: "", R[r]->out.n)).c_str());
    fprintf(f, "err %s\n", srv::tohex(std::string(R[r]->err.p? R[r]->err.p: "", R[r]->err.n)).c_str());
    fprintf(f, "exit %d\n", R[r]->exit_code);
    fprintf(f, "work %.17g\n", R[r]->work);
  }
  if (dead) {          // the fibers of this run cannot be unwound: start afresh
    fputs("bye\n=END\n", f);
    fflush(f);
    _exit(0);
  }
}

// what ranks write with C's functions
static ssize_t to_out(void*, const char* s, size_t n) { if (g_cur >= 0) R[g_cur]->out.add(s, n); return n; }
static ssize_t to_err(void*, const char* s, size_t n) {
  if (g_cur >= 0) { R[g_cur]->err.add(s, n); return n; }
  return write(2, s, n);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  libpath = argv[1];
  dir = argv[2];
  return srv::loop(handle, to_out, to_err);
}
