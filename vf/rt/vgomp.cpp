// Controlled OpenMP runtime: the threads of a parallel region are coroutines of one OS thread, and an explorer
// decides at every scheduling point which of them goes on.  Preloaded, it replaces libgomp for the real library.
// Optionally (translation units compiled with -fsanitize=thread, whose callbacks land here) every access to a
// memory location shared between threads is a scheduling point as well.
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <cxxabi.h>
namespace __cxxabiv1 { extern "C" struct __cxa_eh_globals* __cxa_get_globals() noexcept; }
typedef long L;
namespace {
enum { STK = 1 << 20, MAXT = 8 };
struct WS { L next, end, incr, chunk; int guided; };
struct Thr { ucontext_t uc; char* stk; int done, blocked; int ws; char eh[16]; void* wait; };
struct Team { int n; void (*fn)(void*); void* data; Thr t[MAXT]; std::vector<WS> ws; int nbar, bargen; std::vector<int> single; ucontext_t mainuc; };
int maxT = 1, active = 0, guidedOnes = 16;
Team* team = 0; int cur = -1;
char* stacks[MAXT];
std::vector<int> prefix; std::vector<int> tr; // tr: triples nopt, chosen, preemptive
size_t pos; L nregions, npoints, nmem, ngrab;
int overflow, deadlock, base = 0, kind = 0;
int memmode = 0;  // 0 off, 1 record conflicts, 2 schedule at conflicting sites
std::unordered_set<uintptr_t> sites;
struct Acc { uintptr_t pc; signed char tid; bool w; };
std::unordered_map<uintptr_t, std::vector<Acc>> shadow;
int inrt = 0;
std::map<void*, int> crit; // lock -> owner+1

int choose(int n, int preemptive) {
  int c = 0;
  if (pos < prefix.size()) { c = prefix[pos]; if (c >= n) { c = n - 1; overflow = 1; } }
  pos++; tr.push_back(n); tr.push_back(c); tr.push_back(preemptive);
  return c;
}
void trampoline(int tid) { team->fn(team->data); team->t[tid].done = 1; swapcontext(&team->t[tid].uc, &team->mainuc); }
void yield_() { Thr& t = team->t[cur]; swapcontext(&t.uc, &team->mainuc); }
void point() { if (!team || cur < 0) return; npoints++; yield_(); }
void runTeam(Team& T) {
  int last = -1;
  for (;;) {
    int opt[MAXT], n = 0, lastRun = (last >= 0 && !T.t[last].done && !T.t[last].blocked);
    if (lastRun) opt[n++] = last;
    for (int i = 0; i < T.n; i++) if (i != last && !T.t[i].done && !T.t[i].blocked) opt[n++] = i;
    if (!n) {
      bool all = true; for (int i = 0; i < T.n; i++) all &= T.t[i].done;
      if (all) return;
      bool any = false; for (int i = 0; i < T.n; i++) if (!T.t[i].done && T.t[i].blocked == 1) { T.t[i].blocked = 0; any = true; }
      if (any && !deadlock) { deadlock = 1; continue; }
      fprintf(stderr, "vgomp: deadlock\n"); abort();
    }
    if (base && kind == 1 && lastRun && n > 1) { for (int i = 0; i + 1 < n; i++) opt[i] = opt[i + 1]; opt[n - 1] = last;
      int k = 0; while (k + 1 < n && opt[k] < last) k++; if (opt[k] > last && k) { int f = opt[k]; for (int i = k; i > 0; i--) opt[i] = opt[i - 1]; opt[0] = f; } } // round robin: next thread first
    kind = 0;
    int c = n > 1 ? opt[choose(n, lastRun)] : opt[0];
    cur = last = c;
    void* g = (void*)__cxxabiv1::__cxa_get_globals(); char sv[16];
    memcpy(sv, g, 16); memcpy(g, T.t[c].eh, 16);
    swapcontext(&T.mainuc, &T.t[c].uc);
    memcpy(T.t[c].eh, g, 16); memcpy(g, sv, 16);
    cur = -1;
    if (T.t[c].blocked != 1) deadlock = 0;
  }
}
}
extern "C" {
void vg_config(int T) { maxT = T < 1 ? 1 : T > MAXT ? MAXT : T; }
void vg_begin(const int* p, int n) { prefix.assign(p, p + n); tr.clear(); pos = 0; nregions = npoints = nmem = ngrab = 0; overflow = 0; active = 1; }
int vg_end() { active = 0; return tr.size() / 3; }
const int* vg_trace() { return tr.data(); }
int vg_overflow() { return overflow; }
L vg_stat(int i) { return i == 0 ? nregions : i == 1 ? npoints : i == 2 ? nmem : i == 3 ? (L)sites.size() : ngrab; }
void vg_base(int b) { base = b; }
void vg_mem(int m) { memmode = m; if (m == 3) { sites.clear(); memmode = 1; } }
void vg_sites(uintptr_t* out, int n) { int i = 0; for (auto s : std::set<uintptr_t>(sites.begin(), sites.end())) if (i < n) out[i++] = s; }

int omp_get_thread_num() { return cur < 0 ? 0 : cur; }
int omp_get_num_threads() { return team && cur >= 0 ? team->n : 1; }
int omp_get_max_threads() { return maxT; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team != 0; }
void omp_set_num_threads(int n) { vg_config(n); }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  int n = nt == 0 ? maxT : (int)nt; if (n > MAXT) n = MAXT;
  if (team || !active || n <= 1) {
    // nested, or exploration is off: a team of one
    int c = cur; Team* t0 = team; static Team* freeT = 0; Team* one = freeT ? freeT : new Team; freeT = 0;
    one->n = 1; one->fn = fn; one->data = data; one->nbar = one->bargen = 0; one->ws.clear(); one->t[0].ws = 0; one->t[0].done = one->t[0].blocked = 0;
    team = one; cur = 0; fn(data); team = t0; cur = c; freeT = one;
    return;
  }
  nregions++;
  Team T; T.n = n; T.fn = fn; T.data = data; T.nbar = T.bargen = 0;
  for (int i = 0; i < n; i++) {
    if (!stacks[i]) stacks[i] = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Thr& t = T.t[i]; t.stk = stacks[i]; t.done = t.blocked = 0; t.ws = 0; memset(t.eh, 0, 16);
    getcontext(&t.uc); t.uc.uc_stack.ss_sp = t.stk; t.uc.uc_stack.ss_size = STK; t.uc.uc_link = 0;
    makecontext(&t.uc, (void (*)())trampoline, 1, i);
  }
  team = &T; shadow.clear();
  runTeam(T);
  team = 0; cur = -1; shadow.clear();
}
static bool grab(L* s, L* e) {
  Thr& t = team->t[cur]; WS& w = team->ws[t.ws - 1];
  L n = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (n <= 0) return false;
  L c = w.chunk < 1 ? 1 : w.chunk;
  if (w.guided && n > 0 && w.guided == 2) { L q = (n + team->n - 1) / team->n; if (q > c) c = q; }
  if (c > n) c = n;
  *s = w.next; w.next += c * w.incr; *e = w.next; ngrab++;
  return true;
}
static bool loopStart(L a, L b, L incr, L chunk, L* s, L* e, int guided) {
  Thr& t = team->t[cur];
  if ((size_t)t.ws == team->ws.size()) { L n = (b - a) / incr; team->ws.push_back(WS{a, b, incr, chunk, guided ? (n <= guidedOnes ? 1 : 2) : 0}); }
  t.ws++;
  bool r = grab(s, e); if (team->n > 1 && r) { kind = 1; point(); } return r;
}
static bool loopNext(L* s, L* e) { if (team->n > 1) point(); bool r = grab(s, e); if (team->n > 1 && r) { kind = 1; point(); } return r; }
#define LOOPS(X, G) \
  bool GOMP_loop_##X##_start(L a, L b, L i, L c, L* s, L* e) { return loopStart(a, b, i, c, s, e, G); } \
  bool GOMP_loop_##X##_next(L* s, L* e) { return loopNext(s, e); }
LOOPS(nonmonotonic_dynamic, 0) LOOPS(nonmonotonic_guided, 1) LOOPS(dynamic, 0) LOOPS(guided, 1)
bool GOMP_loop_runtime_start(L a, L b, L i, L* s, L* e) { return loopStart(a, b, i, 1, s, e, 0); }
bool GOMP_loop_runtime_next(L* s, L* e) { return loopNext(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(L a, L b, L i, L* s, L* e) { return loopStart(a, b, i, 1, s, e, 0); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(L* s, L* e) { return loopNext(s, e); }
typedef unsigned long long U;
#define ULOOPS(X, G) \
  bool GOMP_loop_ull_##X##_start(bool up, U a, U b, U i, U c, U* s, U* e) { return loopStart(a, b, i, c, (L*)s, (L*)e, G); } \
  bool GOMP_loop_ull_##X##_next(U* s, U* e) { return loopNext((L*)s, (L*)e); }
ULOOPS(nonmonotonic_dynamic, 0) ULOOPS(nonmonotonic_guided, 1) ULOOPS(dynamic, 0) ULOOPS(guided, 1)
void GOMP_loop_end_nowait() {}
void GOMP_barrier() {
  if (!team || team->n < 2) return;
  Team& T = *team; int gen = T.bargen;
  if (++T.nbar == T.n) { T.nbar = 0; T.bargen++; for (int i = 0; i < T.n; i++) if (T.t[i].blocked == 2) T.t[i].blocked = 0; point(); return; }
  while (T.bargen == gen) { T.t[cur].blocked = 2; yield_(); }
}
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_single_start() { Thr& t = team->t[cur]; if ((size_t)t.ws == team->ws.size()) { team->ws.push_back(WS{0, 0, 1, 1, 0}); t.ws++; return true; } t.ws++; return false; }
static void wake(void* k) { for (int i = 0; i < team->n; i++) if (team->t[i].blocked == 1 && team->t[i].wait == k) team->t[i].blocked = 0; }
static void lk(void* k) {
  if (!team || cur < 0 || team->n < 2) return;
  point();
  while (crit[k] && crit[k] != cur + 1) { team->t[cur].blocked = 1; team->t[cur].wait = k; yield_(); }
  crit[k] = cur + 1;
}
static void ulk(void* k) { if (!team || cur < 0 || team->n < 2) return; crit[k] = 0; wake(k); point(); }
static char deflock, atlock;
void GOMP_critical_start() { lk(&deflock); }
void GOMP_critical_end() { ulk(&deflock); }
void GOMP_critical_name_start(void** p) { lk(p); }
void GOMP_critical_name_end(void** p) { ulk(p); }
void GOMP_atomic_start() { lk(&atlock); }
void GOMP_atomic_end() { ulk(&atlock); }
void omp_init_lock(void** l) { *(int*)l = 0; }
void omp_destroy_lock(void** l) {}
void omp_set_lock(void** l) { lk(l); }
void omp_unset_lock(void** l) { ulk(l); }

static int (*rlock)(pthread_mutex_t*); static int (*rtry)(pthread_mutex_t*); static int (*runlock)(pthread_mutex_t*);
static void rinit() { rtry = (decltype(rtry))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); runlock = (decltype(runlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); rlock = (decltype(rlock))dlsym(RTLD_NEXT, "pthread_mutex_lock"); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!rlock) rinit();
  if (!team || cur < 0 || team->n < 2) return rlock(m);
  point(); int r;
  while ((r = rtry(m)) == 16 /*EBUSY*/) { team->t[cur].blocked = 1; team->t[cur].wait = m; yield_(); }
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!runlock) rinit();
  int r = runlock(m); if (team && cur >= 0 && team->n > 1) { wake(m); point(); } return r;
}

// ---- callbacks of -fsanitize=thread
static inline void mem(void* a, int size, bool w, uintptr_t pc) {
  if (!memmode || !team || cur < 0 || team->n < 2) return;
  char* sp = (char*)__builtin_frame_address(0);
  if ((char*)a > sp - 4096 && (char*)a < team->t[cur].stk + STK) return; // own stack
  nmem++;
  if (memmode == 2) { if (sites.count(pc)) { npoints++; yield_(); } return; }
  if (inrt) return;
  inrt = 1;
  for (uintptr_t g = (uintptr_t)a & ~7ul; g < (uintptr_t)a + size; g += 8) {
    auto& v = shadow[g]; bool have = false;
    for (auto& x : v) {
      if (x.tid == cur) { if (x.pc == pc && x.w == w) have = true; continue; }
      if (w || x.w) { sites.insert(pc); sites.insert(x.pc); }
    }
    if (!have && v.size() < 400) v.push_back(Acc{pc, (signed char)cur, w});
  }
  inrt = 0;
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(N) void __tsan_read##N(void* a) { mem(a, N, false, PC); } void __tsan_write##N(void* a) { mem(a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { mem(a, N, false, PC); } void __tsan_unaligned_write##N(void* a) { mem(a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { mem(a, N, false, PC); } void __tsan_volatile_write##N(void* a) { mem(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { mem(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { mem(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { mem(a, 8, true, PC); }
void __tsan_vptr_read(void** a) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { return __atomic_load_n(a, 5); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
}
