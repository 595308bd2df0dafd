// A small OpenMP runtime that runs the threads as fibers of one system thread, under a seeded
// scheduler which may switch at every memory access of the code under test, and that looks for data
// races with vector clocks. The code under test is compiled with -fopenmp -fsanitize=thread and linked
// with this file in place of libgomp and libtsan; in its objects memcpy and the like are renamed to the
// __wrap_ functions below (minigomp.syms).
//   With MINIGOMP_DEVICE=1, target and OpenACC regions run on a simulated device with a memory of its own:
//   what is not mapped by the data clauses cannot be reached there, device memory starts undefined, and
//   data move between host and device only as the clauses say.
//   omp_set_num_threads(n + 1000 s): n threads, schedules of seed s.  Environment: MINIGOMP_THREADS,
//   MINIGOMP_SEED.  A race or a deadlock ends the process with status 66 and a line on stderr.
#include <stdarg.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <malloc.h>
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace {

typedef std::vector<uint32_t> VC;
inline uint32_t at(const VC& v, size_t i) { return i < v.size() ? v[i] : 0; }
void join(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) if (a[i] < b[i]) a[i] = b[i];
}

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
} rng = {1};

struct Task {               // explicit or implicit
  Task* parent = 0;
  int children = 0;         // not finished
  VC joined;                // what finished children did
  bool done = false;
  VC end;
  std::map<void*, std::pair<std::vector<std::shared_ptr<Task> >, std::vector<std::shared_ptr<Task> > > > deps;
};

struct Group { int live = 0; VC joined; Group* up = 0; };

struct WS {                 // one work-sharing construct of a team
  bool taken = false;
  bool init = false, up = true;
  long long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1;
  int kind = 0;             // 0 dynamic, 1 guided, 2 static
  long long tickets = 0, head = 0;
  VC ordered;
  void* copy = 0;
  int left = 0;
};

struct Team {
  int n = 1, level = 0, active = 0;
  int arrived = 0;
  unsigned gen = 0;
  VC gather, release;
  int tasks = 0;
  VC taskend;
  int finished = 0;
  std::map<int, WS> ws;
  Team* up = 0;
};

struct Fiber {
  ucontext_t ctx;
  char* stack = 0;
  size_t stacksize = 0;
  uint32_t slot = 0;
  VC vc;
  bool dead = false;
  std::function<bool()> wait;
  std::function<void()> body;
  Team* team = 0;
  int num = 0;
  int wsno = 0;
  WS* cur = 0;
  long long ticket = -1;
  std::shared_ptr<Task> task;
  Group* group = 0;
  uint64_t prio = 0;
  bool ondev = false;       // runs on the simulated device
  // target teams
  unsigned nteams = 1, teamno = 0;
  VC teamstart, teamjoin;
  uint32_t teamslot = 0;
};

const size_t STACK = 1 << 20;
Team initial;
Fiber mainf;
Fiber* cur = &mainf;
std::vector<Fiber*> live;
std::vector<Fiber*> pool;
std::vector<uint32_t> clk(1, 1);
std::vector<char> busy(1, 1);
int defthreads = 4;
int active = 0;           // parallel regions in progress
bool started = false;
long long budget = 0;
int mode = 0, meanbits = 4;
uint64_t lowest = 1ull << 40;
uint64_t accesses = 0, switches = 0, regions = 0, maxstrands = 0;
bool nest = false;

void fatal(const std::string& m) {
  fflush(stdout);
  dprintf(2, "MINIGOMP: %s\n", m.c_str());
  _exit(66);
}

// ---- strands --------------------------------------------------------------------------------------

uint32_t new_slot(const VC& base) {
  for (uint32_t i = 1; i < clk.size(); ++i)
    if (!busy[i] && at(base, i) >= clk[i]) { busy[i] = 1; ++clk[i]; return i; }
  clk.push_back(1);
  busy.push_back(1);
  if (clk.size() > maxstrands) maxstrands = clk.size();
  return clk.size() - 1;
}

void set(VC& v, uint32_t i, uint32_t x) {
  if (v.size() <= i) v.resize(i + 1, 0);
  v[i] = x;
}

void start_strand(Fiber* f, const VC& base) {
  f->vc = base;
  f->slot = new_slot(base);
  set(f->vc, f->slot, clk[f->slot]);
}

void tick(Fiber* f) { set(f->vc, f->slot, ++clk[f->slot]); }

// ---- scheduler ------------------------------------------------------------------------------------

void draw() {
  long long m = 1ll << meanbits;
  budget = mode == 2 ? 200000 : 1 + (long long) rng.below(2 * m);
}

bool ready(Fiber* f) { return !f->wait || f->wait(); }

void resched() {
  static std::vector<Fiber*> c;
  c.clear();
  for (size_t i = 0; i < live.size(); ++i) if (ready(live[i])) c.push_back(live[i]);
  if (c.empty()) {
    char b[100];
    snprintf(b, sizeof b, "deadlock: none of %d strands can go on", (int) live.size());
    fatal(b);
  }
  Fiber* f = c[rng.below(c.size())];
  if (mode == 1)
    for (size_t i = 0; i < c.size(); ++i) if (c[i]->prio > f->prio) f = c[i];
  draw();
  f->wait = nullptr;
  if (f == cur) return;
  Fiber* old = cur;
  cur = f;
  ++switches;
  swapcontext(&old->ctx, &f->ctx);
}

inline void point() {
  if (!active) return;
  if (--budget > 0) return;
  if (mode == 1) cur->prio = --lowest;
  resched();
}

void block(std::function<bool()> p) {
  cur->wait = p;
  resched();
}

void yield() { if (active) resched(); }

void shadow_clear(const void* p, size_t n);

// the stacks lie in one area, so that it can be told whose stack an address is in
const size_t NSTACKS = 4096;
char* stacks = 0;
size_t nstacks = 0;
Fiber* owner[NSTACKS];

void trampoline() {
  Fiber* f = cur;
  f->body();
  f->dead = true;
  f->body = nullptr;
  for (size_t i = 0; i < live.size(); ++i) if (live[i] == f) { live.erase(live.begin() + i); break; }
  pool.push_back(f);
  f->wait = [] { return false; };
  resched();
  fatal("a finished strand was resumed");
}

Fiber* spawn() {
  Fiber* f;
  if (!pool.empty()) {
    f = pool.back();
    pool.pop_back();
    char* s = f->stack;
    f->~Fiber();
    new (f) Fiber();
    f->stack = s;
  }
  else {
    f = new Fiber();
    if (!stacks) {
      stacks = (char*) mmap(0, NSTACKS * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (stacks == MAP_FAILED) fatal("no memory for the stacks");
    }
    if (nstacks == NSTACKS) fatal("too many threads for this runtime");
    owner[nstacks] = f;
    f->stack = stacks + STACK * nstacks++;
  }
  f->ondev = cur->ondev;
  f->stacksize = STACK;
  shadow_clear(f->stack, STACK);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = STACK;
  f->ctx.uc_link = 0;
  makecontext(&f->ctx, trampoline, 0);
  f->prio = (1ull << 41) + rng.below(1ull << 30);
  live.push_back(f);
  return f;
}

// ---- shadow memory --------------------------------------------------------------------------------

struct Entry { uint32_t slot, clock; uint8_t mask; bool write, atomic; void* pc; };
struct Cell { uint16_t n, cap; Entry* e; };
struct Page { uint32_t epoch; Cell c[512]; };
std::unordered_map<uintptr_t, Page*>& pages() { static auto* p = new std::unordered_map<uintptr_t, Page*>(); return *p; }
uint32_t epoch = 1;
uintptr_t lastkey = ~(uintptr_t) 0;
Page* lastpage = 0;
bool inshadow = false;

Page* page(uintptr_t key, bool make) {
  Page* p;
  if (key == lastkey) p = lastpage;
  else {
    auto it = pages().find(key);
    if (it == pages().end()) {
      if (!make) return 0;
      p = (Page*) calloc(1, sizeof(Page));
      p->epoch = epoch;
      pages()[key] = p;
    }
    else p = it->second;
    lastkey = key;
    lastpage = p;
  }
  if (p->epoch != epoch) {
    for (int i = 0; i < 512; ++i) p->c[i].n = 0;
    p->epoch = epoch;
  }
  return p;
}

void shadow_clear(const void* q, size_t n) {
  if (!active || inshadow || !n) return;
  inshadow = true;
  uintptr_t a = (uintptr_t) q >> 3, b = ((uintptr_t) q + n + 7) >> 3;
  while (a < b) {
    uintptr_t e = std::min(b, (a | 511) + 1);
    Page* p = page(a >> 9, false);
    if (p) for (; a < e; ++a) p->c[a & 511].n = 0;
    a = e;
  }
  inshadow = false;
}

void race(const Entry& e, bool w, uintptr_t addr, void* pc) {
  char b[300];
  snprintf(b, sizeof b, "data race at address %p: %s by strand %u (pc=%p) and %s by strand %u (pc=%p) "
           "without ordering", (void*) addr, w ? "write" : "read", cur->slot, pc, e.write ? "write" : "read",
           e.slot, e.pc);
  fatal(b);
}

void granule(uintptr_t g, uint8_t mask, bool w, bool atomic, void* pc) {
  Page* p = page(g >> 9, true);
  Cell& c = p->c[g & 511];
  const VC& v = cur->vc;
  int k = 0;
  for (int i = 0; i < c.n; ++i) {
    Entry& e = c.e[i];
    bool before = e.slot == cur->slot || e.clock <= at(v, e.slot);
    if (!before && (e.mask & mask) && (w || e.write) && !(atomic && e.atomic)) race(e, w, g << 3, pc);
    if (before && !(e.mask & ~mask) && (w || !e.write) && (!atomic || e.atomic)) continue;   // superseded
    if (k != i) c.e[k] = e;
    ++k;
  }
  c.n = k;
  if (c.n == c.cap) {
    c.cap = c.cap ? 2 * c.cap : 2;
    c.e = (Entry*) realloc(c.e, c.cap * sizeof(Entry));
  }
  Entry& e = c.e[c.n++];
  e.slot = cur->slot;
  e.clock = at(v, cur->slot);
  e.mask = mask;
  e.write = w;
  e.atomic = atomic;
  e.pc = pc;
}

void device_access(const void* q, size_t n, bool w, void* pc);

void access(const void* q, size_t n, bool w, bool atomic, void* pc) {
  if (!active || inshadow) return;
  ++accesses;
  if (cur->ondev) device_access(q, n, w, pc);
  inshadow = true;
  uintptr_t a = (uintptr_t) q, b = a + n;
  while (a < b) {
    uintptr_t g = a >> 3;
    unsigned lo = a & 7, hi = (g + 1) * 8 <= b ? 8 : b & 7;
    granule(g, (uint8_t) (((1u << (hi - lo)) - 1) << lo), w, atomic, pc);
    a = (g + 1) * 8;
  }
  inshadow = false;
}

// ---- locks ----------------------------------------------------------------------------------------

struct Lock { bool held = false; int depth = 0; Fiber* by = 0; VC vc; };
std::map<std::string, Lock>& named() { static auto* m = new std::map<std::string, Lock>(); return *m; }
std::map<void*, Lock>& locks() { static auto* m = new std::map<void*, Lock>(); return *m; }
std::map<uintptr_t, VC>& syncs() { static auto* m = new std::map<uintptr_t, VC>(); return *m; }

void acquire(Lock& l, bool edge = true) {
  if (active) {
    yield();
    if (l.held) { Lock* p = &l; block([p] { return !p->held; }); }
  }
  l.held = true;
  l.by = cur;
  if (edge) join(cur->vc, l.vc);
}

void release(Lock& l, bool edge = true) {
  if (edge && active) { l.vc = cur->vc; tick(cur); }
  l.held = false;
  yield();
}

// ---- regions --------------------------------------------------------------------------------------

void device_start();
void start() {
  if (started) return;
  started = true;
  const char* s = getenv("MINIGOMP_THREADS");
  if (!s) s = getenv("OMP_NUM_THREADS");
  if (s && atoi(s) > 0) defthreads = atoi(s);
  s = getenv("MINIGOMP_SEED");
  if (s) rng.s = strtoull(s, 0, 10);
  device_start();
  mainf.team = &initial;
  mainf.task.reset(new Task());
  live.push_back(&mainf);
  set(mainf.vc, 0, 1);
}

void outermost() {
  ++epoch;
  clk.assign(1, 1);
  busy.assign(1, 1);
  mainf.vc.assign(1, 1);
  mainf.slot = 0;
  named().clear();
  syncs().clear();
  for (auto& l : locks()) l.second.vc.clear();
  mode = (int) rng.below(8);
  mode = mode < 4 ? 0 : mode < 7 ? 1 : 2;
  meanbits = (int) rng.below(mode ? 13 : 11);
  if (mode) meanbits += 2;
  nest = rng.below(2);
  draw();
}

void team_barrier() {
  Team* t = cur->team;
  if (t->n == 1 && !t->tasks) { t->gather.clear(); return; }
  join(t->gather, cur->vc);
  if (++t->arrived == t->n) {
    if (t->tasks) block([t] { return t->tasks == 0; });
    join(t->gather, t->taskend);
    t->release = t->gather;
    t->arrived = 0;
    ++t->gen;
  }
  else {
    unsigned g = t->gen;
    block([t, g] { return t->gen != g; });
  }
  join(cur->vc, t->release);
  tick(cur);
  yield();
}

void parallel(void (*fn)(void*), void* data, unsigned n) {
  start();
  Fiber* me = cur;
  bool top = !active;
  if (top) { outermost(); ++active; }
  else { ++active; yield(); }
  ++regions;
  Team* up = cur->team;
  Team* t = new Team();
  t->up = up;
  t->level = up->level + 1;
  if (n == 0) n = defthreads;
  if (up->active > 0 && !nest) n = 1;
  t->n = n;
  t->active = up->active + (n > 1);
  tick(me);
  std::vector<uint32_t> slots;
  for (unsigned i = 0; i < n; ++i) {
    Fiber* f = spawn();
    start_strand(f, me->vc);
    f->team = t;
    f->num = i;
    f->task.reset(new Task());
    f->nteams = me->nteams;
    f->teamno = me->teamno;
    f->body = [f, t, fn, data] {
      fn(data);
      join(t->gather, f->vc);
      busy[f->slot] = 0;
      ++t->finished;
    };
  }
  block([t] { return t->finished == t->n && t->tasks == 0; });
  if (t->arrived) fatal("deadlock: some threads wait at a barrier that the others do not reach");
  join(me->vc, t->gather);
  join(me->vc, t->taskend);
  tick(me);
  delete t;
  --active;
}

WS& work() {
  Team* t = cur->team;
  WS& w = t->ws[cur->wsno++];
  if (!w.left) w.left = t->n;
  cur->cur = &w;
  return w;
}


// ---- the simulated device -------------------------------------------------------------------------

bool device = false;
const size_t DEVMEM = (size_t) 1 << 30, REDZONE = 64;
char* dev = 0;
size_t devtop = 0;
std::map<uintptr_t, size_t>& blocks() { static auto* m = new std::map<uintptr_t, size_t>(); return *m; }
std::map<uintptr_t, size_t>& heap() { static auto* m = new std::map<uintptr_t, size_t>(); return *m; }
bool inheap = false;
uintptr_t lastblk = 0, lastend = 0;
struct Map { uintptr_t h, e; char* d; long refs; };
std::vector<Map*>& maps() { static auto* m = new std::vector<Map*>(); return *m; }
std::vector<std::pair<uintptr_t, uintptr_t> >& constants() { static auto* m = new std::vector<std::pair<uintptr_t, uintptr_t> >(); return *m; }
uint64_t kernels = 0, bytes_to = 0, bytes_from = 0;

void unsupported(const std::string& m) {
  fflush(stdout);
  dprintf(2, "MINIGOMP-UNSUPPORTED: %s\n", m.c_str());
  _exit(67);
}

void device_start() {
  const char* s = getenv("MINIGOMP_DEVICE");
  if (!s || atoi(s) == 0) return;
  device = true;
  dev = (char*) mmap(0, DEVMEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (dev == MAP_FAILED) fatal("no memory for the device");
  FILE* f = fopen("/proc/self/maps", "r");
  char line[600];
  while (f && fgets(line, sizeof line, f)) {
    unsigned long a, b;
    char perm[8];
    if (sscanf(line, "%lx-%lx %7s", &a, &b, perm) == 3 && perm[0] == 'r' && perm[1] != 'w')
      constants().push_back(std::make_pair((uintptr_t) a, (uintptr_t) b));
  }
  if (f) fclose(f);
}

char* dalloc(size_t n, size_t align = 64) {
  if (blocks().empty()) devtop = 0;
  if (align < 64) align = 64;
  size_t at = (devtop + REDZONE + align - 1) / align * align;
  if (at + n + REDZONE > DEVMEM) fatal("the device is out of memory");
  devtop = at + n;
  memset(dev + at, 0xff, n + REDZONE);      // undefined: NaN, -1
  blocks()[(uintptr_t) dev + at] = n;
  return dev + at;
}

void dfree(char* p) {
  auto it = blocks().find((uintptr_t) p);
  if (it == blocks().end()) return;
  memset(p, 0xfe, it->second);
  lastend = 0;
  blocks().erase(it);
}

void device_access(const void* q, size_t n, bool w, void* pc) {
  uintptr_t a = (uintptr_t) q;
  if (a >= lastblk && a + n <= lastend) return;
  if (stacks && a >= (uintptr_t) stacks && a < (uintptr_t) stacks + NSTACKS * STACK) {
    Fiber* f = owner[(a - (uintptr_t) stacks) / STACK];
    if (f && f->ondev && !f->dead) return;
  }
  auto it = blocks().upper_bound(a);
  if (it != blocks().begin()) {
    --it;
    if (a >= it->first && a + n <= it->first + it->second) {
      lastblk = it->first;
      lastend = it->first + it->second;
      return;
    }
  }
  it = heap().upper_bound(a);
  if (it != heap().begin() && (--it, a + n <= it->first + it->second)) return;
  if (!w) for (auto& c : constants()) if (a >= c.first && a + n <= c.second) return;
  char b[300];
  bool in = a >= (uintptr_t) dev && a < (uintptr_t) dev + DEVMEM;
  snprintf(b, sizeof b, "device code %s %d byte(s) at %p, which is %s (pc=%p)", w ? "writes" : "reads", (int) n, q,
           in ? "outside what is mapped to the device" : "host memory", pc);
  fatal(b);
}

Map* find(uintptr_t h, size_t n, const char* what) {
  for (Map* m : maps()) {
    if (h >= m->h && h + n <= m->e) return m;
    if (h < m->e && h + n > m->h) fatal(std::string("part of what is to be mapped is on the device already: ") + what);
  }
  return 0;
}
Map* holds(uintptr_t h) {
  for (Map* m : maps()) if (h >= m->h && h < m->e) return m;
  return 0;
}
char* on(Map* m, uintptr_t h) { return m->d + (h - m->h); }

void to_device(char* d, uintptr_t h, size_t n) {
  access((void*) h, n, false, false, __builtin_return_address(0));
  access(d, n, true, false, __builtin_return_address(0));
  memcpy(d, (void*) h, n);
  bytes_to += n;
}
void from_device(uintptr_t h, char* d, size_t n) {
  access(d, n, false, false, __builtin_return_address(0));
  access((void*) h, n, true, false, __builtin_return_address(0));
  memcpy((void*) h, d, n);
  bytes_from += n;
}

Map* make(uintptr_t h, size_t n, size_t align) {
  Map* m = new Map();
  m->h = h;
  m->e = h + n;
  m->d = dalloc(n, align);
  m->refs = 0;
  maps().push_back(m);
  return m;
}
void unref(Map* m, bool all) {
  m->refs = all ? 0 : m->refs - 1;
  if (m->refs > 0) return;
  dfree(m->d);
  for (size_t i = 0; i < maps().size(); ++i) if (maps()[i] == m) { maps().erase(maps().begin() + i); break; }
  delete m;
}

// a pointer variable on the device that points to what is mapped of *h
void pointer(char* d, uintptr_t h, size_t bias) {
  uintptr_t v = *(uintptr_t*) h;
  char* t = 0;
  if (v) {
    Map* m = holds(v + bias);
    if (!m && v + bias) {
      // one past the end of what is mapped, for empty arrays
      for (Map* k : maps()) if (v + bias == k->e) m = k;
    }
    if (!m) fatal("a pointer is mapped, but what it points to is not on the device");
    t = m->d + (v + bias - m->h) - bias;
  }
  memcpy(d, &t, sizeof t);
}

struct Item { Map* m; uintptr_t h; size_t n; bool from, always; char* own; };
struct Region { std::vector<Item> items; };
std::vector<Region>& dataregions() { static auto* r = new std::vector<Region>(); return *r; }

unsigned plain(unsigned k) { return (k & 0x7c) == 0x60 ? k & ~0x60u : k; }

// maps the entries; returns what has to be undone, and the device addresses
Region map_in(size_t n, void** a, size_t* sizes, unsigned short* kinds, std::vector<void*>& out) {
  Region r;
  out.assign(n, (void*) 0);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = plain(kinds[i] & 0xff);
    size_t align = (size_t) 1 << (kinds[i] >> 8);
    uintptr_t h = (uintptr_t) a[i];
    size_t sz = sizes[i];
    Item it = {0, h, sz, false, false, 0};
    switch (k) {
      case 0: case 1: case 2: case 3: case 0x11: case 0x12: case 0x13: case 0x80: case 0x81: case 0x82: case 0x83:
      case 5: {
        if (!h) break;
        if (sz == 0) { Map* m = holds(h); out[i] = m ? on(m, h) : (char*) h; break; }
        Map* m = find(h, sz, "map");
        bool fresh = !m;
        if (!m) m = make(h, sz, align);
        ++m->refs;
        if ((k & 1) && (fresh || (k & 0x10))) to_device(on(m, h), h, sz);
        it.m = m;
        it.from = k != 5 && (k & 2);
        it.always = k & 0x10;
        out[i] = on(m, h);
        break;
      }
      case 4: {
        Map* m = find(h, sizeof(void*), "pointer");
        if (!m) m = make(h, sizeof(void*), sizeof(void*));
        ++m->refs;
        pointer(on(m, h), h, sz);
        it.m = m;
        out[i] = on(m, h);
        break;
      }
      case 6: {
        if (!h || !sz) break;
        Map* m = find(h, sz, "present");
        if (!m) fatal("data said to be present is not on the device");
        ++m->refs;
        it.m = m;
        out[i] = on(m, h);
        break;
      }
      case 11: {
        Map* m = h ? find(h, sz, "if present") : 0;
        out[i] = m ? on(m, h) : 0;
        break;
      }
      case 8: out[i] = (void*) h; break;
      case 12:
        it.own = dalloc(sz, align);
        to_device(it.own, h, sz);
        out[i] = it.own;
        break;
      case 13: out[i] = (void*) h; break;
      case 14: {
        Map* m = h ? holds(h) : 0;
        if (h && !m) fatal("use_device_ptr of what is not on the device");
        a[i] = out[i] = m ? on(m, h) : 0;
        break;
      }
      case 15: case 0x1e: {
        Map* m = h ? holds(h) : 0;
        out[i] = m ? on(m, h) : (char*) h;
        break;
      }
      case 0x1c: {                                  // a structure: the next sz entries are parts of it
        uintptr_t lo = ~(uintptr_t) 0, hi = 0;
        for (size_t j = i + 1; j <= i + sz && j < n; ++j) {
          lo = std::min(lo, (uintptr_t) a[j]);
          hi = std::max(hi, (uintptr_t) a[j] + sizes[j]);
        }
        Map* m = find(lo, hi - lo, "structure");
        if (!m) m = make(lo, hi - lo, align);
        ++m->refs;
        it.m = m;
        out[i] = on(m, lo) - (lo - h);
        for (size_t j = i + 1; j <= i + sz && j < n; ++j) {
          unsigned kj = plain(kinds[j] & 0xff);
          if ((kj < 4 || (kj > 0x10 && kj < 0x14)) && (kj & 1)) to_device(on(m, (uintptr_t) a[j]), (uintptr_t) a[j], sizes[j]);
        }
        break;
      }
      case 0x1d: case 0x50: {
        Map* m = find(h, sizeof(void*), "attach");
        if (!m) fatal("a pointer to attach is not on the device");
        pointer(on(m, h), h, sz);
        out[i] = on(m, h);
        break;
      }
      default: {
        char b[80];
        snprintf(b, sizeof b, "map kind 0x%x", k);
        unsupported(b);
      }
    }
    r.items.push_back(it);
  }
  return r;
}

void map_out(Region& r) {
  for (auto& it : r.items) {
    if (it.own) { dfree(it.own); continue; }
    if (!it.m) continue;
    if (it.from && (it.m->refs == 1 || it.always)) from_device(it.h, on(it.m, it.h), it.n);
  }
  for (auto& it : r.items) if (it.m) unref(it.m, false);
  r.items.clear();
}

// Kernels that were started and not waited for; the kernels of one queue run one after the other.
struct Kernel {
  long queue = 0;
  Region region;
  char* args = 0;
  Team* team = 0;
  bool done = false;
  VC end;
  std::shared_ptr<Kernel> before;
};
std::vector<std::shared_ptr<Kernel> >& pending() { static auto* p = new std::vector<std::shared_ptr<Kernel> >(); return *p; }

void finish(std::shared_ptr<Kernel> k) {
  block([k] { return k->done; });
  join(cur->vc, k->end);
  tick(cur);
  map_out(k->region);
  delete k->team;
  dfree(k->args);
  --active;
}

// waits for the kernels of a queue, or for all of them
void drain(bool all, long queue) {
  auto& p = pending();
  for (size_t i = 0; i < p.size();) {
    if (!all && p[i]->queue != queue) { ++i; continue; }
    std::shared_ptr<Kernel> k = p[i];
    p.erase(p.begin() + i);
    finish(k);
  }
}

// runs fn on the device, with the addresses the mapping gave
void launch(void (*fn)(void*), Region r, std::vector<void*>& addr, bool async, long queue) {
  ++kernels;
  std::shared_ptr<Kernel> k(new Kernel());
  k->queue = queue;
  k->region = r;
  char* args = k->args = dalloc(addr.size() * sizeof(void*) + 8);
  memcpy(args, addr.data(), addr.size() * sizeof(void*));
  if (!active) outermost();
  ++active;
  k->team = new Team();
  k->team->up = cur->team;
  tick(cur);
  Fiber* f = spawn();
  start_strand(f, cur->vc);
  f->ondev = true;
  f->team = k->team;
  f->task.reset(new Task());
  if (async && queue) {
    for (auto& o : pending()) if (o->queue == queue) k->before = o;
    if (k->before) {
      std::shared_ptr<Kernel> o = k->before;
      f->wait = [o] { return o->done; };
    }
  }
  f->body = [f, k, fn] {
    if (k->before) { join(f->vc, k->before->end); k->before.reset(); }
    fn(k->args);
    k->end = f->vc;
    busy[f->slot] = 0;
    k->done = true;
  };
  if (async) { pending().push_back(k); yield(); }
  else finish(k);
}

// data moved by directives outside a structured region
void move(size_t n, void** a, size_t* sizes, unsigned short* kinds, bool enter, bool update) {
  std::vector<void*> out;
  if (enter) {
    Region r = map_in(n, a, sizes, kinds, out);       // stays
    (void) r;
    return;
  }
  for (int pass = 0; pass < 2; ++pass)
    for (size_t i = 0; i < n; ++i) {
      unsigned k = plain(kinds[i] & 0xff);
      uintptr_t h = (uintptr_t) a[i];
      size_t sz = k == 4 || k == 0x1d || k == 0x50 || k == 0x51 ? sizeof(void*) : sizes[i];
      if (k == 0x50 || k == 0x51 || k == 0xd1 || k == 0x1d || k == 0x1c || (update && (k == 4 || k == 5))) continue;
      Map* m = h && sz ? find(h, sz, "update or exit data") : 0;
      if (!m) continue;
      bool from = (k & 0x0c) == 0 && (k & 2) && k != 0x17;
      bool to = (k & 0x0c) == 0 && (k & 1) && k != 0x17;
      if (update) {
        if (pass == 0 && to) to_device(on(m, h), h, sz);
        if (pass == 0 && from) from_device(h, on(m, h), sz);
      }
      else if (pass == 0) { if (from && (m->refs == 1 || (k & 0x10))) from_device(h, on(m, h), sz); }
      else unref(m, k == 7 || k == 0x87);
    }
}

// ---- loops ----------------------------------------------------------------------------------------

bool grab(WS& w, long* s, long* e) {
  Team* t = cur->team;
  if (cur->ticket >= 0 && cur->ticket == w.head) ++w.head;
  cur->ticket = -1;
  yield();
  bool more = w.incr > 0 ? w.next < w.end : w.next > w.end;
  if (!more) return false;
  long long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  long long c = w.chunk;
  if (w.kind == 1) c = std::max(c, (left + t->n - 1) / t->n);
  if (w.kind == 2 && w.chunk <= 0) c = 1 + (long long) rng.below(left);
  if (c < 1) c = 1;
  if (c > left) c = left;
  *s = w.next;
  w.next += c * w.incr;
  *e = c == left ? w.end : w.next;
  cur->ticket = w.tickets++;
  return true;
}

bool loop_start(long a, long b, long incr, long chunk, int kind, long* s, long* e) {
  WS& w = work();
  if (!w.init) {
    w.init = true;
    w.next = a;
    w.end = (incr > 0 && a > b) || (incr < 0 && a < b) ? a : b;
    w.incr = incr;
    w.chunk = chunk;
    w.kind = kind;
  }
  return grab(w, s, e);
}

bool ugrab(WS& w, unsigned long long* s, unsigned long long* e) {
  if (cur->ticket >= 0 && cur->ticket == w.head) ++w.head;
  cur->ticket = -1;
  yield();
  bool more = w.up ? w.unext < w.uend : w.unext > w.uend;
  if (!more) return false;
  unsigned long long inc = w.up ? w.uincr : 0 - w.uincr, span = w.up ? w.uend - w.unext : w.unext - w.uend;
  unsigned long long left = (span + inc - 1) / inc;
  unsigned long long c = w.chunk < 1 ? 1 : w.chunk;
  if (w.kind == 1) c = std::max(c, (left + cur->team->n - 1) / cur->team->n);
  if (c > left) c = left;
  *s = w.unext;
  w.unext += c * w.uincr;
  *e = c == left ? w.uend : w.unext;
  cur->ticket = w.tickets++;
  return true;
}

bool uloop_start(bool up, unsigned long long a, unsigned long long b, unsigned long long incr, unsigned long long chunk,
                 int kind, unsigned long long* s, unsigned long long* e) {
  WS& w = work();
  if (!w.init) {
    w.init = true;
    w.up = up;
    w.unext = a;
    w.uend = (up && a > b) || (!up && a < b) ? a : b;
    w.uincr = incr;
    w.chunk = (long long) chunk;
    w.kind = kind;
  }
  return ugrab(w, s, e);
}

void ws_done() {
  WS* w = cur->cur;
  if (w && cur->ticket >= 0 && cur->ticket == w->head) ++w->head;
  cur->ticket = -1;
  cur->cur = 0;
}

// ---- tasks ----------------------------------------------------------------------------------------

void finish_task(Fiber* f, std::shared_ptr<Task> k, Team* t, Group* g) {
  busy[f->slot] = 0;
  k->done = true;
  k->end = f->vc;
  join(k->end, k->joined);
  join(k->parent->joined, k->end);
  --k->parent->children;
  if (g) { --g->live; join(g->joined, k->end); }
  join(t->taskend, k->end);
  --t->tasks;
}

void create_task(void (*fn)(void*), void* buf, bool wait, std::vector<std::shared_ptr<Task> > preds,
                 std::shared_ptr<Task> k) {
  Team* t = cur->team;
  std::shared_ptr<Task> par = cur->task;
  k->parent = par.get();
  ++par->children;
  Group* g = cur->group;
  if (g) ++g->live;
  ++t->tasks;
  Fiber* f = spawn();
  tick(cur);
  start_strand(f, cur->vc);
  f->team = t;
  f->num = (int) rng.below(t->n);
  f->task = k;
  f->group = g;
  f->nteams = cur->nteams;
  f->teamno = cur->teamno;
  if (!preds.empty()) f->wait = [preds] {
    for (auto& p : preds) if (!p->done) return false;
    return true;
  };
  f->body = [f, k, par, t, g, fn, buf, preds] {
    for (auto& p : preds) join(f->vc, p->end);
    fn(buf);
    free(buf);
    finish_task(f, k, t, g);
  };
  if (wait) {
    block([k] { return k->done; });
    join(cur->vc, k->end);
    tick(cur);
  }
  else yield();
}

void* task_data(void* data, void (*cpyfn)(void*, void*), long size, long align) {
  size_t al = align < 16 ? 16 : align;
  void* raw = aligned_alloc(al, (size + al - 1) / al * al);
  shadow_clear(raw, malloc_usable_size(raw));
  if (cpyfn) cpyfn(raw, data); else memcpy(raw, data, size);
  return raw;
}

std::vector<std::shared_ptr<Task> > depend(void** d, std::shared_ptr<Task> k) {
  std::vector<std::shared_ptr<Task> > preds;
  size_t n = (size_t) d[0], nout, nin, first;
  size_t rest = 0;
  if (n) { nout = (size_t) d[1]; nin = n - nout; first = 2; }
  else {
    n = (size_t) d[1];
    nout = (size_t) d[2] + (size_t) d[3];
    nin = (size_t) d[4];
    rest = n - nout - nin;
    first = 5;
  }
  (void) rest;
  for (size_t i = 0; i < n; ++i) {
    bool out = i < nout || i >= nout + nin;
    void* a = i >= nout + nin ? *(void**) d[first + i] : d[first + i];
    auto& e = cur->task->deps[a];
    for (auto& p : e.first) preds.push_back(p);
    if (out) {
      for (auto& p : e.second) preds.push_back(p);
      e.first.clear();
      e.second.clear();
      e.first.push_back(k);
    }
    else e.second.push_back(k);
  }
  std::vector<std::shared_ptr<Task> > r;
  for (auto& p : preds) if (p != k) r.push_back(p);
  return r;
}

}  // namespace

extern "C" {

// ---- libgomp --------------------------------------------------------------------------------------

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
  parallel(fn, data, n);
  return n ? n : defthreads;
}
void GOMP_barrier() { start(); if (active) team_barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

bool GOMP_single_start() {
  start();
  if (!active) return true;
  yield();
  WS& w = work();
  if (w.taken) return false;
  return w.taken = true;
}
void* GOMP_single_copy_start() {
  start();
  if (!active) return 0;
  WS& w = work();
  if (!w.taken) { w.taken = true; return 0; }
  team_barrier();
  return w.copy;
}
void GOMP_single_copy_end(void* d) {
  if (!active) return;
  cur->cur->copy = d;
  team_barrier();
}

#define LOOPS(NAME, KIND) \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, KIND, s, e); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return grab(*cur->cur, s, e); } \
  bool GOMP_loop_ull_##NAME##_start(bool u, unsigned long long a, unsigned long long b, unsigned long long i, \
      unsigned long long c, unsigned long long* s, unsigned long long* e) { return uloop_start(u, a, b, i, c, KIND, s, e); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e) { return ugrab(*cur->cur, s, e); }
#define RLOOPS(NAME) \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, rng.below(2), s, e); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return grab(*cur->cur, s, e); } \
  bool GOMP_loop_ull_##NAME##_start(bool u, unsigned long long a, unsigned long long b, unsigned long long i, \
      unsigned long long* s, unsigned long long* e) { return uloop_start(u, a, b, i, 1, rng.below(2), s, e); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e) { return ugrab(*cur->cur, s, e); }
LOOPS(dynamic, 0)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_guided, 1)
LOOPS(static, 2)
LOOPS(ordered_static, 2)
LOOPS(ordered_dynamic, 0)
LOOPS(ordered_guided, 1)
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
RLOOPS(ordered_runtime)

struct LoopCall { void (*fn)(void*); void* data; long a, b, i, c; int kind; };
// combined constructs: the body asks for its first chunk with the _next function
static void par_loop(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, int kind) {
  LoopCall call = {fn, data, a, b, i, c, kind};
  parallel([](void* q) {
    LoopCall* k = (LoopCall*) q;
    WS& w = work();
    if (!w.init) {
      w.init = true;
      w.next = k->a;
      w.end = (k->i > 0 && k->a > k->b) || (k->i < 0 && k->a < k->b) ? k->a : k->b;
      w.incr = k->i;
      w.chunk = k->c;
      w.kind = k->kind;
    }
    k->fn(k->data);
  }, &call, n);
}
#define PLOOP(NAME, KIND) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { par_loop(fn, d, n, a, b, i, c, KIND); }
#define PRLOOP(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { par_loop(fn, d, n, a, b, i, 1, rng.below(2)); }
PLOOP(dynamic, 0)
PLOOP(nonmonotonic_dynamic, 0)
PLOOP(guided, 1)
PLOOP(nonmonotonic_guided, 1)
PLOOP(static, 2)
PRLOOP(runtime)
PRLOOP(nonmonotonic_runtime)
PRLOOP(maybe_nonmonotonic_runtime)

void GOMP_loop_end() { ws_done(); GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() { ws_done(); }
void GOMP_ordered_start() {
  WS* w = cur->cur;
  Fiber* f = cur;
  if (!w) return;
  block([w, f] { return f->ticket < 0 || w->head == f->ticket; });
  join(cur->vc, w->ordered);
}
void GOMP_ordered_end() {
  if (cur->cur) { cur->cur->ordered = cur->vc; tick(cur); }
  yield();
}

unsigned GOMP_sections_start(unsigned n) {
  long s, e;
  return loop_start(1, (long) n + 1, 1, 1, 0, &s, &e) ? s : 0;
}
unsigned GOMP_sections_next() {
  long s, e;
  return grab(*cur->cur, &s, &e) ? s : 0;
}
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) {
  par_loop(fn, d, n, 1, (long) count + 1, 1, 1, 0);
}

void GOMP_critical_start() { start(); acquire(named()["critical"]); }
void GOMP_critical_end() { release(named()["critical"]); }
void GOMP_critical_name_start(void** p) { start(); acquire(locks()[p]); }
void GOMP_critical_name_end(void** p) { release(locks()[p]); }
void GOMP_atomic_start() { start(); acquire(named()["atomic"]); }
void GOMP_atomic_end() { release(named()["atomic"]); }

void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool if_clause,
               unsigned flags, void** dep, int, void*) {
  start();
  if (!active) {
    void* b = task_data(data, cpyfn, size, align);
    fn(b);
    free(b);
    return;
  }
  std::shared_ptr<Task> k(new Task());
  std::vector<std::shared_ptr<Task> > preds;
  if ((flags & 8) && dep) preds = depend(dep, k);
  create_task(fn, task_data(data, cpyfn, size, align), !if_clause || (flags & 2), preds, k);
}
void GOMP_taskwait() {
  start();
  if (!active) return;
  drain(false, 0);
  Task* k = cur->task.get();
  block([k] { return k->children == 0; });
  join(cur->vc, k->joined);
  tick(cur);
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { yield(); }
void GOMP_taskgroup_start() {
  start();
  Group* g = new Group();
  g->up = cur->group;
  cur->group = g;
}
void GOMP_taskgroup_end() {
  Group* g = cur->group;
  if (!g) return;
  if (active) {
    block([g] { return g->live == 0; });
    join(cur->vc, g->joined);
    tick(cur);
  }
  cur->group = g->up;
  delete g;
}
static void taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags,
                     unsigned long num, unsigned long long n, unsigned long long s, unsigned long long step) {
  if (n == 0) return;
  unsigned long long tasks = flags & (1 << 9) ? (num ? n / num : n) : num ? num : (unsigned long long) cur->team->n;
  if (tasks < 1) tasks = 1;
  if (tasks > n) tasks = n;
  bool group = !(flags & (1 << 11));
  if (group) GOMP_taskgroup_start();
  unsigned long long done = 0;
  for (unsigned long long q = 0; q < tasks; ++q) {
    unsigned long long c = (n - done) / (tasks - q);
    void* b = task_data(data, cpyfn, size, align);
    ((unsigned long long*) b)[0] = s + done * step;
    ((unsigned long long*) b)[1] = s + (done + c) * step;
    done += c;
    if (!active) { fn(b); free(b); }
    else create_task(fn, b, (flags & (1 << 10)) ? false : true, {}, std::shared_ptr<Task>(new Task()));
  }
  if (group) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags,
                   unsigned long num, int, long a, long b, long step) {
  start();
  if (step > 0 ? a >= b : a <= b) return;
  unsigned long long n = step > 0 ? (b - a + step - 1) / step : (a - b - step - 1) / -step;
  taskloop(fn, data, cpyfn, size, align, flags, num, n, a, step);
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, unsigned flags,
                       unsigned long num, int, unsigned long long a, unsigned long long b, unsigned long long step) {
  start();
  bool up = flags & (1 << 8);
  if (up ? a >= b : a <= b) return;
  unsigned long long n = up ? (b - a + step - 1) / step : (a - b + (0 - step) - 1) / (0 - step);
  taskloop(fn, data, cpyfn, size, align, flags, num, n, a, step);
}

// ---- target: on the host; the teams of a target region are run one after the other, but are ordered
//      neither with each other in the race detector
void GOMP_target_data_ext(int where, size_t n, void** addrs, size_t* sizes, unsigned short* kinds) {
  start();
  if (!device) return;
  std::vector<void*> out;
  if (where == -2) dataregions().push_back(Region());
  else dataregions().push_back(map_in(n, addrs, sizes, kinds, out));
}
void GOMP_target_end_data() {
  if (!device) return;
  if (dataregions().empty()) fatal("the end of a data region that was not begun");
  map_out(dataregions().back());
  dataregions().pop_back();
}
void GOMP_target_update_ext(int where, size_t n, void** a, size_t* s, unsigned short* k, unsigned, void**) {
  start();
  if (device && where != -2) move(n, a, s, k, false, true);
}
void GOMP_target_enter_exit_data(int where, size_t n, void** a, size_t* s, unsigned short* k, unsigned flags, void**) {
  start();
  if (device && where != -2) move(n, a, s, k, !(flags & 2), false);
}
static long queue_of(int async) { return async >= 0 ? async + 1000 : async; }
void GOACC_data_start(int f, size_t n, void** a, size_t* s, unsigned short* k) {
  GOMP_target_data_ext((f ^ -1) & 1 ? -2 : -1, n, a, s, k);
}
void GOACC_data_end() { GOMP_target_end_data(); }
void GOACC_enter_data(int, size_t n, void** a, size_t* s, unsigned short* k, int, int, ...) {
  start();
  if (device) move(n, a, s, k, true, false);
}
void GOACC_exit_data(int, size_t n, void** a, size_t* s, unsigned short* k, int, int, ...) {
  start();
  if (device) move(n, a, s, k, false, false);
}
void GOACC_enter_exit_data(int f, size_t n, void** a, size_t* s, unsigned short* k, int, int, ...) {
  bool enter = false;
  for (size_t i = 0; i < n; ++i) {
    unsigned q = plain(k[i] & 0xff);
    if (q == 0 || q == 1 || q == 0x80 || q == 0x81) enter = true;
  }
  if (enter) GOACC_enter_data(f, n, a, s, k, 0, 0); else GOACC_exit_data(f, n, a, s, k, 0, 0);
}
void GOACC_update(int, size_t n, void** a, size_t* s, unsigned short* k, int, int, ...) {
  start();
  if (device) move(n, a, s, k, false, true);
}
static void goacc_wait(int n, va_list& ap) {
  if (n <= 0) drain(true, 0);
  for (int i = 0; i < n; ++i) drain(false, queue_of(va_arg(ap, int)));
}
void GOACC_wait(int async, int n, ...) {
  start();
  va_list ap;
  va_start(ap, n);
  goacc_wait(n, ap);        // the host waits, also when only the queue should
  va_end(ap);
  (void) async;
}
int GOACC_get_num_threads() { return 1; }
int GOACC_get_thread_num() { return 0; }
void GOACC_parallel_keyed(int f, void (*fn)(void*), size_t n, void** a, size_t* s, unsigned short* k, ...) {
  start();
  if (!device || ((f ^ -1) & 1)) { fn(a); return; }
  long queue = -2;
  va_list ap;
  va_start(ap, k);
  for (unsigned tag; (tag = va_arg(ap, unsigned)) != 0;) {
    int op = (signed short) (tag & 0xffff);
    switch (tag >> 28) {
      case 1: for (int i = 0; i < 3; ++i) if (op & (1 << i)) (void) va_arg(ap, unsigned); break;
      case 2: queue = (tag & 0xffff) == 0xffff ? va_arg(ap, int) : (int) (tag & 0xffff); break;
      case 3: goacc_wait(op, ap); break;
      default: unsupported("launch tag");
    }
  }
  va_end(ap);
  std::vector<void*> out;
  Region r = map_in(n, a, s, k, out);
  launch(fn, r, out, queue != -2, queue_of(queue));
}
void GOMP_offload_register_ver(unsigned, const void*, int, const void*) {}
void GOMP_offload_unregister_ver(unsigned, const void*, int, const void*) {}
void GOMP_target_ext(int where, void (*fn)(void*), size_t n, void** addrs, size_t* sizes, unsigned short* kinds, unsigned flags,
                     void** depends, void**) {
  start();
  if (device && where != -2) {
    if (depends) drain(true, 0);      // in the order of the program
    std::vector<void*> out;
    Region r = map_in(n, addrs, sizes, kinds, out);
    launch(fn, r, out, flags & 1, 0);
    return;
  }
  std::vector<void*> a(addrs, addrs + n);
  std::vector<std::vector<char> > copies;
  for (size_t i = 0; i < n; ++i)
    if ((kinds[i] & 0xff) == 12) {
      size_t al = (size_t) 1 << (kinds[i] >> 8);
      copies.push_back(std::vector<char>(sizes[i] + al));
      uintptr_t p = ((uintptr_t) copies.back().data() + al - 1) & ~(uintptr_t) (al - 1);
      memcpy((void*) p, addrs[i], sizes[i]);
      a[i] = (void*) p;
    }
  bool top = !active;
  if (top) outermost();
  ++active;
  Team* t = new Team();
  t->up = cur->team;
  t->n = 1;
  Team* old = cur->team;
  int num = cur->num, ws = cur->wsno;
  cur->team = t;
  cur->num = 0;
  cur->wsno = 0;
  cur->nteams = 1;
  cur->teamno = 0;
  fn(a.data());
  cur->team = old;
  cur->num = num;
  cur->wsno = ws;
  --active;
}
static void stack_clear() {
  if (cur == &mainf) {
    char here;
    // the frames below the caller and the caller's own locals
    shadow_clear((char*) ((uintptr_t) &here & ~(uintptr_t) 4095) - (64 << 10), 256 << 10);
  }
  else shadow_clear(cur->stack, cur->stacksize);
}
bool GOMP_teams4(unsigned lo, unsigned hi, unsigned, bool first) {
  start();
  if (first) {
    if (lo == 0) lo = 1;
    if (hi == 0) { lo = 1 + (unsigned) rng.below(5); }
    cur->nteams = lo;
    cur->teamno = 0;
    tick(cur);
    cur->teamstart = cur->vc;
    cur->teamjoin = cur->vc;
    cur->teamslot = cur->slot;
  }
  else {
    join(cur->teamjoin, cur->vc);
    if (cur->slot != cur->teamslot) busy[cur->slot] = 0;
    if (cur->teamno + 1 >= cur->nteams) {
      cur->slot = cur->teamslot;
      cur->vc = cur->teamjoin;
      tick(cur);
      cur->nteams = 1;
      cur->teamno = 0;
      stack_clear();
      return false;
    }
    ++cur->teamno;
  }
  start_strand(cur, cur->teamstart);
  stack_clear();
  return true;
}
void GOMP_teams(unsigned n, unsigned l) { GOMP_teams4(n, n, l, true); cur->nteams = 1; }
void GOMP_teams_reg(void (*fn)(void*), void* data, unsigned n, unsigned, unsigned) {
  bool top = !active;
  start();
  if (top) outermost();
  ++active;
  for (bool f = true; GOMP_teams4(n, n, 0, f); f = false) fn(data);
  --active;
}

// ---- omp.h ----------------------------------------------------------------------------------------

int omp_get_thread_num() { return cur->team ? cur->num : 0; }
int omp_get_num_threads() { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { start(); return defthreads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_in_parallel() { return cur->team && cur->team->active > 0; }
int omp_get_level() { return cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return cur->team ? cur->team->active : 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_num_teams() { return cur->nteams; }
int omp_get_team_num() { return cur->teamno; }
int omp_get_num_devices() { start(); return device ? 1 : 0; }
int omp_get_initial_device() { return omp_get_num_devices(); }
int omp_get_default_device() { return 0; }
void omp_set_default_device(int) {}
int omp_is_initial_device() { return !cur->ondev; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_cancellation() { return 0; }
void omp_set_schedule(int, int) {}
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : cur->num; }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_in_final() { return 0; }
double omp_get_wtime() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }
void omp_set_num_threads(int n) {
  start();
  if (n >= 1000) { rng.s = n / 1000; n %= 1000; }
  defthreads = n < 1 ? 1 : n;
}
void omp_init_lock(void** l) { locks()[l] = Lock(); }
void omp_destroy_lock(void** l) { locks().erase(l); }
void omp_set_lock(void** l) { start(); acquire(locks()[l]); }
void omp_unset_lock(void** l) { release(locks()[l]); }
int omp_test_lock(void** l) { yield(); if (locks()[l].held) return 0; acquire(locks()[l]); return 1; }
void omp_init_nest_lock(void** l) { locks()[l] = Lock(); }
void omp_destroy_nest_lock(void** l) { locks().erase(l); }
void omp_set_nest_lock(void** l) {
  start();
  Lock& k = locks()[l];
  if (!(k.held && k.by == cur)) acquire(k);
  ++k.depth;
}
void omp_unset_nest_lock(void** l) { Lock& k = locks()[l]; if (--k.depth == 0) release(k); }

int omp_get_thread_num_() { return omp_get_thread_num(); }
int omp_get_num_threads_() { return omp_get_num_threads(); }
int omp_get_max_threads_() { return omp_get_max_threads(); }
int omp_get_num_procs_() { return 8; }
int omp_get_thread_limit_() { return 1 << 20; }
int omp_in_parallel_() { return omp_in_parallel(); }
int omp_get_level_() { return omp_get_level(); }
int omp_get_num_teams_() { return omp_get_num_teams(); }
int omp_get_team_num_() { return omp_get_team_num(); }
int omp_get_num_devices_() { return omp_get_num_devices(); }
int omp_get_default_device_() { return 0; }
int omp_is_initial_device_() { return !cur->ondev; }
int omp_get_dynamic_() { return 0; }
void omp_set_dynamic_(const int*) {}
void omp_set_nested_(const int*) {}
double omp_get_wtime_() { return omp_get_wtime(); }
void omp_set_num_threads_(const int* n) { omp_set_num_threads(*n); }
void omp_init_lock_(void** l) { omp_init_lock(l); }
void omp_destroy_lock_(void** l) { omp_destroy_lock(l); }
void omp_set_lock_(void** l) { omp_set_lock(l); }
void omp_unset_lock_(void** l) { omp_unset_lock(l); }

// ---- libtsan --------------------------------------------------------------------------------------

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N) \
  void __tsan_read##N(void* p) { access(p, N, false, false, PC); point(); } \
  void __tsan_write##N(void* p) { point(); access(p, N, true, false, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); point(); } \
  void __tsan_unaligned_write##N(void* p) { point(); access(p, N, true, false, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); point(); } \
  void __tsan_volatile_write##N(void* p) { point(); access(p, N, true, false, PC); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); point(); }
void __tsan_write_range(void* p, size_t n) { point(); access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { point(); access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); point(); }

// orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static void before_atomic(void* p, size_t n, bool w, int mo, void* pc) {
  start();
  point();
  access(p, n, w, true, pc);
  if (!active) return;
  if (mo == 1 || mo == 2 || mo >= 4) join(cur->vc, syncs()[(uintptr_t) p]);
  if (w && mo >= 3) { join(syncs()[(uintptr_t) p], cur->vc); tick(cur); }
}
#define ATOMIC(BITS, T) \
  T __tsan_atomic##BITS##_load(const T* p, int mo) { before_atomic((void*) p, sizeof(T), false, mo, PC); return *(volatile const T*) p; } \
  void __tsan_atomic##BITS##_store(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); *(volatile T*) p = v; } \
  T __tsan_atomic##BITS##_exchange(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = v; return o; } \
  T __tsan_atomic##BITS##_fetch_add(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##BITS##_fetch_sub(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##BITS##_fetch_and(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##BITS##_fetch_or(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##BITS##_fetch_xor(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##BITS##_fetch_nand(T* p, T v, int mo) { before_atomic(p, sizeof(T), true, mo, PC); T o = *p; *p = ~(o & v); return o; } \
  bool __tsan_atomic##BITS##_compare_exchange_strong(T* p, T* c, T v, int mo, int) { \
    before_atomic(p, sizeof(T), true, mo, PC); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
  bool __tsan_atomic##BITS##_compare_exchange_weak(T* p, T* c, T v, int mo, int) { \
    before_atomic(p, sizeof(T), true, mo, PC); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
  T __tsan_atomic##BITS##_compare_exchange_val(T* p, T c, T v, int mo, int) { \
    before_atomic(p, sizeof(T), true, mo, PC); T o = *p; if (o == c) *p = v; return o; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yield(); }
void __tsan_atomic_signal_fence(int) {}

// ---- functions of the libraries that touch the program's memory -----------------------------------

void* __wrap_malloc(size_t);
void __wrap_free(void*);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  point();
  return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  point();
  return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  access(d, n, true, false, PC);
  point();
  return memset(d, c, n);
}
static void gone(void* p, void* pc) {
  if (!p || !active || inshadow) return;
  size_t n = malloc_usable_size(p);
  access(p, n, true, false, pc);
  shadow_clear(p, n);
}
// what device code allocates is device memory
static void* fresh(void* p, size_t n) {
  if (p) shadow_clear(p, malloc_usable_size(p));
  if (p && cur->ondev && !inshadow && !inheap) { inheap = true; heap()[(uintptr_t) p] = n; inheap = false; }
  return p;
}
static void forget(void* p) {
  if (p && device && !inshadow && !inheap) { inheap = true; heap().erase((uintptr_t) p); inheap = false; }
}
// the runtime's own (see vlib/build.py)
void* __mg_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void __mg_delete(void* p) { free(p); }
void __mg_delete_sized(void* p, size_t) { free(p); }

void* __wrap_malloc(size_t n) { return fresh(malloc(n), n); }
void* __wrap_calloc(size_t k, size_t n) { return fresh(calloc(k, n), k * n); }
void* __wrap_realloc(void* p, size_t n) {
  gone(p, PC);
  forget(p);
  return fresh(realloc(p, n), n);
}
void __wrap_free(void* p) { gone(p, PC); forget(p); free(p); }

// libgfortran locks the unit between st_write and st_write_done
static Lock& io() { static Lock* l = new Lock(); return *l; }
#define IO(NAME) \
  __attribute__((weak)) void _gfortran_st_##NAME(void*); __attribute__((weak)) void _gfortran_st_##NAME##_done(void*); \
  void __wrap__gfortran_st_##NAME(void* d) { start(); acquire(io(), false); _gfortran_st_##NAME(d); } \
  void __wrap__gfortran_st_##NAME##_done(void* d) { _gfortran_st_##NAME##_done(d); release(io(), false); }
IO(write)
IO(read)
#define XFER(NAME, W) \
  __attribute__((weak)) void _gfortran_transfer_##NAME(void*, void*, int); \
  void __wrap__gfortran_transfer_##NAME(void* d, void* p, int k) { access(p, k, W, false, PC); _gfortran_transfer_##NAME(d, p, k); }
XFER(integer_write, false)
XFER(real_write, false)
XFER(logical_write, false)
XFER(character_write, false)
XFER(integer, true)
XFER(real, true)
XFER(logical, true)
XFER(character, true)

__attribute__((destructor)) static void at_end() {
  const char* s = getenv("MINIGOMP_STATS");
  if (s) dprintf(2, "MINIGOMP-STATS regions %llu accesses %llu switches %llu kernels %llu to %llu from %llu\n",
                 (unsigned long long) regions, (unsigned long long) accesses, (unsigned long long) switches,
                 (unsigned long long) kernels, (unsigned long long) bytes_to, (unsigned long long) bytes_from);
}

}  // extern "C"
