#include "mc.hpp"
#include "alloc.hpp"
#include "sched.hpp"
#include <exception>
#include <ucontext.h>
#include <sys/mman.h>
#include <unordered_map>
#include <pthread.h>
namespace sched {
enum { MAXT = 16, STACK = 1 << 20 };
int nthreads = 2; std::vector<std::string> races; long regions, switches, points, accesses;
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum State { FREE, RUN, BLOCKED, DONE };
struct Lock { int owner = -1; VC vc; };
struct Team { int n = 1, parent = -1, left = 0; long arrived = 0, gen = 0; VC bar; unsigned long loop_gen = 0; std::map<unsigned long, std::vector<long>> loops; std::map<unsigned long, int> singles; VC ws; };
struct Th {
  ucontext_t ctx; char *stack = nullptr; State st = FREE; VC vc; std::function<void()> fn; Team *team = nullptr; int num = 0; void *wait = nullptr; unsigned long loops = 0, singles = 0; std::vector<long> *loop = nullptr;
};
static Th T[MAXT]; static int cur = 0; static std::map<void *, Lock> locks; static std::exception_ptr fault; static ucontext_t mainctx; static bool active = false;
// ------------------------------------------------------------ shadow memory
struct Cell { uint32_t ex, w, r, r2; };   // per 2 bytes: execution, last write, last reads as thread<<24|clock
static uint32_t exec_no = 0;
struct Page { Cell c[2048]; };
static std::unordered_map<uintptr_t, Page *> pages; static uintptr_t lastk = 0; static Page *lastp = nullptr;
static inline Page *page(uintptr_t k) { if (k == lastk && lastp) return lastp; Page *&p = pages[k]; if (!p) p = (Page *)calloc(1, sizeof(Page)); lastk = k; return lastp = p; }
static inline uint32_t ep(int t, Clk c) { return (uint32_t)t << 24 | (c & 0xffffff); }
static inline bool ordered(uint32_t e, const VC &v) { return !e || v.c[e >> 24] >= (e & 0xffffff); }
extern "C" char __data_start, _end;
static uintptr_t mstack0, mstack1;
// Tracked: globals, stacks, and heap blocks of the library or registered by the harness (memory of other libraries is not).
static bool always(uintptr_t a) {
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) return true; if (a >= mstack0 && a < mstack1) return true;
  for (int i = 1; i < MAXT; i++) if (T[i].stack && a - (uintptr_t)T[i].stack < STACK) return true; return false;
}
static std::string where(void *pc) {
  char b[300], c[200]; snprintf(c, 200, "addr2line -s -f -e /proc/%d/exe %p 2>/dev/null | tr '\\n' ' '", getpid(), (char *)pc - 1); b[0] = 0;
  if (mc::describing()) if (FILE *f = popen(c, "r")) { if (!fgets(b, 300, f)) b[0] = 0; pclose(f); }
  return b[0] ? b : "?";
}
static void report(const char *kind, uintptr_t a, void *pc, int other) { if (races.size() < 4) races.push_back(std::string(kind) + " by threads " + std::to_string(cur) + " and " + std::to_string(other) + " without synchronisation, at " + where(pc)); }
static void touch(uintptr_t a, size_t n, bool wr, void *pc) {
  accesses++;
  Th &t = T[cur]; if (t.stack && a - (uintptr_t)t.stack < STACK) return;   // own stack
  uint32_t me = ep(cur, t.vc.c[cur]);
  for (uintptr_t q = a >> 1, e = (a + n - 1) >> 1; q <= e; q++) {
    Cell &c = page(q >> 11)->c[q & 2047];
    if (c.ex != exec_no) { if (!always(a)) continue; c.ex = exec_no; c.w = c.r = c.r2 = 0; }
    if (wr) {
      if (c.w == me && !c.r) continue;
      if (!ordered(c.w, t.vc)) report("write and write", a, pc, c.w >> 24);
      if (!ordered(c.r, t.vc)) report("write and read", a, pc, c.r >> 24); if (!ordered(c.r2, t.vc)) report("write and read", a, pc, c.r2 >> 24);
      c.w = me; c.r = c.r2 = 0;
    } else {
      if (c.r == me || c.w == me) continue;
      if (!ordered(c.w, t.vc)) report("read and write", a, pc, c.w >> 24);
      if (!c.r || c.r >> 24 == (uint32_t)cur || ordered(c.r, t.vc)) c.r = me; else c.r2 = me;
    }
  }
}
static void fresh(void *p, size_t n) { for (uintptr_t q = (uintptr_t)p >> 1, e = ((uintptr_t)p + n + 1) >> 1; q < e; q++) { Cell &c = page(q >> 11)->c[q & 2047]; c.ex = exec_no; c.w = c.r = c.r2 = 0; } }
static void freed(void *p, size_t n) { if (!p || !n) return; touch((uintptr_t)p, n, true, __builtin_return_address(0)); for (uintptr_t q = (uintptr_t)p >> 1, e = ((uintptr_t)p + n + 1) >> 1; q < e; q++) page(q >> 11)->c[q & 2047].ex = 0; }
void track(void *p, size_t n) { fresh(p, n); }
// ------------------------------------------------------------ scheduling
static void go(int k) { if (k == cur) return; int o = cur; cur = k; switches++; mc::step(); swapcontext(o ? &T[o].ctx : &mainctx, k ? &T[k].ctx : &mainctx); if (cur == 0 && fault) {} }
static std::vector<int> runnable() { std::vector<int> r; for (int i = 1; i < MAXT; i++) if (T[i].st == RUN) r.push_back(i); return r; }
static void leave() {   // the current thread cannot go on: somebody else must
  if (fault) { go(0); }
  auto r = runnable(); if (r.empty()) { if (cur != 0 && T[0].st == RUN) { go(0); return; } bool blocked = false; for (int i = 1; i < MAXT; i++) blocked |= T[i].st == BLOCKED; if (blocked) { try { mc::fail("deadlock: every thread waits"); } catch (...) { fault = std::current_exception(); } T[0].st = RUN; } go(0); return; }
  int k = 0; try { k = r.size() > 1 ? mc::choose((int)r.size()) : 0; } catch (...) { fault = std::current_exception(); } if (fault) { T[0].st = RUN; go(0); return; }
  go(r[k]);
}
void point() {
  if (cur == 0) return; points++; auto r = runnable(); if (r.size() < 2) return;
  int k = 0; try { k = mc::choose_dev((int)r.size()); } catch (...) { fault = std::current_exception(); } if (fault) { T[0].st = RUN; go(0); } if (!k) return;
  int n = 0; for (int i : r) if (i != cur && ++n == k) { go(i); return; }
}
static void entry() { try { T[cur].fn(); } catch (...) { if (!fault) fault = std::current_exception(); }
  if (fault) { T[0].st = RUN; go(0); abort(); }
  Th &t = T[cur]; t.st = DONE; Team *m = t.team; int par = m ? m->parent : 0; T[par].vc.join(t.vc); 
  if (m && --m->left == 0) { T[par].st = RUN; T[par].wait = nullptr; }
  leave(); abort(); }
static int spawn(int parent, std::function<void()> fn, Team *team, int num) {
  int k = 1; while (k < MAXT && T[k].st != FREE) k++; if (k == MAXT) { fprintf(stderr, "sched: too many threads\n"); abort(); }
  Th &t = T[k]; if (!t.stack) t.stack = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.fn = fn; t.team = team; t.num = num; t.loops = t.singles = 0; t.loop = nullptr; t.wait = nullptr; Clk own = t.vc.c[k]; t.vc = T[parent].vc; t.vc.c[k] = std::max(own, T[parent].vc.c[k]) + 1;
  getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = nullptr; makecontext(&t.ctx, entry, 0); t.st = RUN; return k;
}
static void team(int n, std::function<void(int)> body) {
  regions++; int par = cur; Team m; m.n = n; m.parent = par; m.left = n; std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(spawn(par, [=] { body(i); }, &m, i));
  T[par].vc.c[par]++; T[par].st = BLOCKED; leave();
  if (fault) { if (par == 0) { auto f = fault; fault = nullptr; active = false; for (int i = 0; i < MAXT; i++) T[i].st = i ? FREE : RUN; std::rethrow_exception(f); } go(0); }
  for (int k : ks) T[k].st = FREE;
}
void reset() { exec_no++; if (!mstack1) { pthread_attr_t a; void *b; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &n); pthread_attr_destroy(&a); mstack0 = (uintptr_t)b; mstack1 = mstack0 + n; } if (pages.size() > 8000) { for (auto &p : pages) free(p.second); pages.clear(); lastp = nullptr; } locks.clear(); for (int i = 0; i < MAXT; i++) { T[i].st = i ? FREE : RUN; T[i].vc = VC(); T[i].vc.c[i] = 1; T[i].team = nullptr; } cur = 0; races.clear(); fault = nullptr; regions = switches = points = accesses = 0; nthreads = 2; mca::on_alloc = fresh; mca::on_free = freed; }
bool in_thread() { return cur != 0; }
static bool session(int k) { return T[k].num < 0; }
void run(std::vector<std::function<void()>> th) { int n = (int)th.size(); team(n, [&th](int i) { T[cur].num = -1 - i; th[i](); }); }
void check() { if (!races.empty()) mc::fail("%s", races[0].c_str()); mc::g().cur->checks += accesses; }
static void acquire(void *a) {
  point(); Lock &l = locks[a]; while (l.owner >= 0) { T[cur].st = BLOCKED; T[cur].wait = a; leave(); }
  l.owner = cur; T[cur].vc.join(l.vc);
}
static void release(void *a) { Lock &l = locks[a]; l.owner = -1; l.vc = T[cur].vc; T[cur].vc.c[cur]++; for (int i = 1; i < MAXT; i++) if (T[i].st == BLOCKED && T[i].wait == a) { T[i].st = RUN; T[i].wait = nullptr; } point(); }
static void atomic(void *a) { if (cur == 0) return; point(); Lock &l = locks[a]; T[cur].vc.join(l.vc); l.vc.join(T[cur].vc); T[cur].vc.c[cur]++; }
static Team *crew();
bool in_team() { return crew() != nullptr; }
static Team *crew() { return cur && !session(cur) ? T[cur].team : nullptr; }
static void barrier() {
  Team *m = crew(); if (!m || m->n < 2) return; m->bar.join(T[cur].vc); T[cur].vc.c[cur]++; long gen = m->gen;
  if (++m->arrived == m->n) { m->arrived = 0; m->gen++; for (int i = 1; i < MAXT; i++) if (T[i].st == BLOCKED && T[i].wait == &m->arrived) { T[i].st = RUN; T[i].wait = nullptr; T[i].vc.join(m->bar); } T[cur].vc.join(m->bar); point(); }
  else while (m->gen == gen) { T[cur].st = BLOCKED; T[cur].wait = &m->arrived; leave(); }
}
// work sharing: {next, end, incr, chunk}
static bool loop_next(long *s, long *e) {
  Team *m = crew(); auto &l = *T[cur].loop; if (m) { point(); T[cur].vc.join(m->ws); m->ws.join(T[cur].vc); T[cur].vc.c[cur]++; }
  if (l[2] > 0 ? l[0] >= l[1] : l[0] <= l[1]) return false; *s = l[0]; long x = l[0] + l[2] * l[3]; if (l[2] > 0 ? x > l[1] : x < l[1]) x = l[1]; *e = x; l[0] = x; return true;
}
static std::vector<long> solo;
static bool loop_start(long s, long e, long i, long c, long *is, long *ie) {
  Team *m = crew(); std::vector<long> v{s, e, i, c < 1 ? 1 : c}; if (!m) { solo = v; T[cur].loop = &solo; } else { unsigned long k = T[cur].loops++; if (!m->loops.count(k)) m->loops[k] = v; T[cur].loop = &m->loops[k]; }
  return loop_next(is, ie);
}
}
using namespace sched;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { if (n == 0) n = sched::nthreads; if (n == 1 || crew()) { fn(data); return; } team((int)n, [=](int) { fn(data); }); }
void GOMP_barrier() { barrier(); }
static int critical_lock;
void GOMP_critical_start() { if (cur) acquire(&critical_lock); }
void GOMP_critical_end() { if (cur) release(&critical_lock); }
void GOMP_critical_name_start(void **p) { if (cur) acquire(p); }
void GOMP_critical_name_end(void **p) { if (cur) release(p); }
static int atomic_lock;
void GOMP_atomic_start() { if (cur) acquire(&atomic_lock); }
void GOMP_atomic_end() { if (cur) release(&atomic_lock); }
bool GOMP_single_start() { Team *m = crew(); if (!m) return true; unsigned long k = T[cur].singles++; point(); return m->singles[k]++ == 0; }
#define LOOP(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } bool GOMP_loop_##k##_next(long *s, long *e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { if (n == 0) n = sched::nthreads; if (n == 1 || crew()) { long a, b; solo = {s, e, i, c < 1 ? 1 : c}; T[cur].loop = &solo; fn(d); return; } \
    team((int)n, [=](int) { Team *m = crew(); unsigned long q = T[cur].loops++; if (!m->loops.count(q)) m->loops[q] = {s, e, i, c < 1 ? 1 : c}; T[cur].loop = &m->loops[q]; fn(d); }); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static) LOOP(runtime) LOOP(nonmonotonic_runtime) LOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {}
int omp_get_thread_num() { return crew() ? T[cur].num : 0; } int omp_get_num_threads() { Team *m = crew(); return m ? m->n : 1; } int omp_get_max_threads() { return crew() ? 1 : sched::nthreads; } void omp_set_num_threads(int) {} int omp_in_parallel() { return crew() != nullptr; } int omp_get_num_procs() { return sched::nthreads; } int omp_get_level() { return crew() != nullptr; } double omp_get_wtime() { return 0; }
struct omplock { void *p; }; void omp_init_lock(void *l) {} void omp_destroy_lock(void *l) {} void omp_set_lock(void *l) { if (cur) acquire(l); } void omp_unset_lock(void *l) { if (cur) release(l); }
int pthread_mutex_lock_mc(void *l) { if (cur) acquire(l); return 0; } int pthread_mutex_unlock_mc(void *l) { if (cur) release(l); return 0; }
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { touch((uintptr_t)a, n, false, PC); } void __tsan_write##n(void *a) { touch((uintptr_t)a, n, true, PC); } void __tsan_unaligned_read##n(void *a) { touch((uintptr_t)a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { touch((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { touch((uintptr_t)a, n, false, PC); } void __tsan_volatile_write##n(void *a) { touch((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) touch((uintptr_t)a, n, false, PC); } void __tsan_write_range(void *a, size_t n) { if (n) touch((uintptr_t)a, n, true, PC); } void __tsan_vptr_update(void **a, void *) { touch((uintptr_t)a, 8, true, PC); } void __tsan_vptr_read(void **a) { touch((uintptr_t)a, 8, false, PC); }
void *mc_memcpy(void *d, const void *s, size_t n) { if (n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { if (n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void *mc_memset(void *d, int v, size_t n) { if (n) touch((uintptr_t)d, n, true, PC); return memset(d, v, n); }
#define ATOM(B, TY) TY __tsan_atomic##B##_load(const volatile TY *a, int) { atomic((void *)a); return *a; } void __tsan_atomic##B##_store(volatile TY *a, TY v, int) { atomic((void *)a); *a = v; } TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = o + v; return o; } TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = o - v; return o; } TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = o | v; return o; } TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = o & v; return o; } TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int) { atomic((void *)a); TY o = *a; *a = o ^ v; return o; } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int, int) { atomic((void *)a); if (*a == *e) { *a = v; return true; } *e = *a; return false; } bool __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int x, int y) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, x, y); } TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY e, TY v, int x, int y) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, x, y); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) {}
}
