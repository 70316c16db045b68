// Models of the OpenMP runtime (libomp entry points clang emits) and of MPI.
#include "sym.h"
#include "par.h"
#include "include/mpi.h"
#include "rt_api.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <malloc.h>
#include <map>
#include <new>
#include <string>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
using std::vector; using std::string;
static const size_t STK = 1 << 20;
struct Co { ucontext_t ctx; char* stack = nullptr; std::function<void()> fn; bool done = false, blocked = false; int id = 0; char eh[16]; std::exception_ptr ex; };
struct Sched { vector<Co*> co; ucontext_t main; Co* cur = nullptr; };
static vector<Sched*> SS;   // nested schedulers (OpenMP region inside an MPI rank)
static void eh_save(char* b) { memcpy(b, (void*)abi::__cxa_get_globals(), 16); }
static void eh_load(const char* b) { memcpy((void*)abi::__cxa_get_globals(), b, 16); }
static void tramp(unsigned lo, unsigned hi) { Co* c = (Co*)(((uintptr_t)hi << 32) | lo); try { c->fn(); } catch (...) { c->ex = std::current_exception(); } c->done = true; Sched* s = SS.back(); s->cur = nullptr; swapcontext(&c->ctx, &s->main); abort(); }
static Co* co_new(int id, std::function<void()> f) { Co* c = new Co; c->id = id; c->fn = f; c->stack = (char*)malloc(STK); memset(c->eh, 0, 16); getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STK; c->ctx.uc_link = nullptr; uintptr_t p = (uintptr_t)c; makecontext(&c->ctx, (void (*)())tramp, 2, (unsigned)p, (unsigned)(p >> 32)); return c; }
static void co_resume(Sched* s, Co* c) { char me[16]; eh_save(me); eh_load(c->eh); s->cur = c; swapcontext(&s->main, &c->ctx); eh_save(c->eh); eh_load(me); s->cur = nullptr; }
static void co_yield(Sched* s) { Co* c = s->cur; s->cur = nullptr; swapcontext(&c->ctx, &s->main); s->cur = c; }
static void co_free(Co* c) { free(c->stack); delete c; }

// ---------------------------------------------------------------- OpenMP
static int PUSHED = 0, DEFT = 4; static int FREEP = 0, FREEO = 0, REGMAX = 0, REG = 0;
struct Team { int n; vector<long> cuts; int loops = 0; Sched* s; int barrier = 0; };
static vector<Team*> TEAMS; static vector<int> TID;
extern "C" {
void par_omp_mode(int p, int o, int m) { FREEP = p; FREEO = o; REGMAX = m; REG = 0; }
int omp_get_thread_num(void) { return TID.empty() ? 0 : TID.back(); }
int omp_get_num_threads(void) { return TEAMS.empty() ? 1 : TEAMS.back()->n; }
int omp_get_max_threads(void) { return DEFT; } void omp_set_num_threads(int n) { DEFT = n; } int omp_get_num_procs(void) { return 4; } int omp_in_parallel(void) { return !TEAMS.empty(); }
double omp_get_wtime(void) { return 0; } int omp_get_thread_limit(void) { return 64; } int omp_get_level(void) { return (int)TEAMS.size(); } void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {}
typedef struct { int v; } omp_lock_t;
void omp_init_lock(omp_lock_t*) {} void omp_destroy_lock(omp_lock_t*) {} void omp_set_lock(omp_lock_t*) {} void omp_unset_lock(omp_lock_t*) {} int omp_test_lock(omp_lock_t*) { return 1; }
int __kmpc_global_thread_num(void*) { return omp_get_thread_num(); }
void __kmpc_push_num_threads(void*, int, int n) { PUSHED = n; }
// ------------- access tracking for race detection
struct Acc { int w = -1, r = -1; bool multi_r = false; };
static std::unordered_map<uintptr_t, Acc> SHADOW; static bool TRACK = false, RACEON = false; static long RACES = 0; static string RACETXT; static int CRIT = 0; static bool BUSY = false; struct Busy { Busy() { BUSY = true; } ~Busy() { BUSY = false; } };
void par_race_enable(int on) { RACEON = on; }
long par_race_count(void) { return RACES; } const char* par_race_text(void) { return RACETXT.c_str(); }
static bool own_stack(void* p) { Sched* s = SS.empty() ? nullptr : SS.back(); if (!s || !s->cur) return true; char* b = s->cur->stack; return (char*)p >= b && (char*)p < b + STK; }
static void race(void* p, const char* k) { RACES++; if (RACETXT.empty()) { char b[100]; snprintf(b, sizeof b, "%s at %p by thread %d", k, p, omp_get_thread_num()); RACETXT = b; } }
void __sym_load(void* p, long n, int at) { if (!TRACK || n != 8 || at || CRIT || BUSY) return; Busy bz; if (own_stack(p)) return; int t = omp_get_thread_num(); Acc& a = SHADOW[(uintptr_t)p]; if (a.w >= 0 && a.w != t) race(p, "read of a location written by another thread"); if (a.r >= 0 && a.r != t) a.multi_r = true; a.r = t; }
void __sym_store(void* p, long n, int at) { if (!TRACK || n != 8 || at || CRIT || BUSY) return; Busy bz; if (own_stack(p)) return; int t = omp_get_thread_num(); Acc& a = SHADOW[(uintptr_t)p]; if (a.w >= 0 && a.w != t) race(p, "write to a location written by another thread"); if ((a.r >= 0 && a.r != t) || a.multi_r) race(p, "write to a location read by another thread"); a.w = t; }
void par_forget(void* p, size_t n) { if (!TRACK || BUSY) return; Busy bz; if (n > SHADOW.size() * 8 + 4096) { for (auto i = SHADOW.begin(); i != SHADOW.end();) if (i->first >= (uintptr_t)p && i->first < (uintptr_t)p + n) i = SHADOW.erase(i); else ++i; return; } for (uintptr_t x = (uintptr_t)p; x < (uintptr_t)p + n; x += 8) SHADOW.erase(x); }
void __sym_memop(void* d, void* s, uint64_t n) { if (!TRACK || CRIT) return; for (uint64_t i = 0; i + 8 <= n; i += 8) { if (s) __sym_load((char*)s + i, 8, 0); __sym_store((char*)d + i, 8, 0); } }
// memory handed out during a region is fresh
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
#ifdef PAR_WRAP
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (TRACK && p) par_forget(p, malloc_usable_size(p)); return p; }
void __wrap_free(void* p) { if (TRACK && p) par_forget(p, malloc_usable_size(p)); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (TRACK && p) par_forget(p, malloc_usable_size(p)); return p; }
void* __wrap_realloc(void* q, size_t n) { if (TRACK && q) par_forget(q, malloc_usable_size(q)); void* p = __real_realloc(q, n); if (TRACK && p) par_forget(p, malloc_usable_size(p)); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { int r = __real_posix_memalign(o, a, n); if (TRACK && !r) par_forget(*o, malloc_usable_size(*o)); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); if (TRACK && p) par_forget(p, malloc_usable_size(p)); return p; }
#endif
typedef void (*micro_t)(int*, int*, ...);
static void call_micro(micro_t f, int argc, void** a) {
  int t = omp_get_thread_num(); int g = t, b = t;
  switch (argc) {
    case 0: f(&g, &b); break; case 1: f(&g, &b, a[0]); break; case 2: f(&g, &b, a[0], a[1]); break; case 3: f(&g, &b, a[0], a[1], a[2]); break;
    case 4: f(&g, &b, a[0], a[1], a[2], a[3]); break; case 5: f(&g, &b, a[0], a[1], a[2], a[3], a[4]); break; case 6: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    default: { void* x[24] = {0}; for (int i = 0; i < argc && i < 24; i++) x[i] = a[i]; if (argc > 24) rt_unsupported("omp region with more than 24 captured variables"); f(&g, &b, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23]); }
  }
}
void __kmpc_fork_call(void*, int argc, micro_t f, ...) {
  vector<void*> args(argc ? argc : 1); va_list ap; va_start(ap, f); for (int i = 0; i < argc; i++) args[i] = va_arg(ap, void*); va_end(ap);
  int n = PUSHED > 0 ? PUSHED : DEFT; PUSHED = 0;
  if (!TEAMS.empty()) { TEAMS.push_back(new Team{1, {}, 0, nullptr}); TID.push_back(0); call_micro(f, argc, args.data()); TID.pop_back(); TEAMS.pop_back(); return; }
  Team tm{n, {}, 0, nullptr}; Sched s; tm.s = &s; TEAMS.push_back(&tm); SS.push_back(&s); TID.push_back(0);
  bool fr = REGMAX == 0 || REG < REGMAX; REG++;
  for (int i = 0; i < n; i++) s.co.push_back(co_new(i, [&, i]() { call_micro(f, argc, args.data()); }));
  SHADOW.clear(); TRACK = RACEON;
  vector<Co*> run(s.co); int rn = 0; bool rev = false; if (FREEO && fr && n > 1) rev = sym_int(("ompord" + std::to_string(REG)).c_str(), 0, 1);
  while (!run.empty()) {
    vector<Co*> ready; for (Co* c : run) if (!c->blocked) ready.push_back(c);
    if (ready.empty()) { for (Co* c : run) c->blocked = false; SHADOW.clear(); continue; }   // everyone at the barrier
    Co* c = rev ? ready.back() : ready.front(); rn++;
    TID.back() = c->id; co_resume(&s, c); if (c->done) for (size_t i = 0; i < run.size(); i++) if (run[i] == c) { run.erase(run.begin() + i); break; }
  }
  TRACK = false; SHADOW.clear(); TID.pop_back(); SS.pop_back(); TEAMS.pop_back(); bool ex = false; for (Co* c : s.co) { if (c->ex) ex = true; c->ex = nullptr; co_free(c); } if (ex) rt_crash("exception escaped an OpenMP region (std::terminate)");
}
static void bounds(long lo, long up, long inc, long* l, long* u, int tid) {  // iteration space lo..up (inclusive) in steps of inc, for this thread
  Team* t = TEAMS.back(); long trip = inc > 0 ? (up >= lo ? (up - lo) / inc + 1 : 0) : (lo >= up ? (lo - up) / (-inc) + 1 : 0); int n = t->n;
  if (t->cuts.empty()) {
    t->cuts.assign(n + 1, 0); t->cuts[n] = trip; bool fr = FREEP && (REGMAX == 0 || REG <= REGMAX);
    if (fr && n > 1) { long prev = 0; for (int i = 1; i < n; i++) { t->cuts[i] = sym_int(("ompcut" + std::to_string(REG) + "_" + std::to_string(i)).c_str(), (int)prev, (int)trip); prev = t->cuts[i]; } }
    else { long q = n ? trip / n : 0, r = n ? trip % n : 0, p = 0; for (int i = 0; i < n; i++) { t->cuts[i] = p; p += q + (i < r); } }
  }
  *l = lo + t->cuts[tid] * inc; *u = lo + (t->cuts[tid + 1] - 1) * inc;
}
void __kmpc_for_static_init_8u(void*, int, int, int* last, uint64_t* lo, uint64_t* up, int64_t* st, int64_t inc, int64_t) { int t = omp_get_thread_num(); if (TEAMS.empty()) return; long l, u; uint64_t olo = *lo, oup = *up; if (oup == (uint64_t)-1 || olo > oup) { *lo = 1; *up = 0; if (last) *last = 0; return; } bounds((long)olo, (long)oup, inc, &l, &u, t); bool empty = TEAMS.back()->cuts[t] == TEAMS.back()->cuts[t + 1]; if (empty) { *lo = 1; *up = 0; } else { *lo = l; *up = u; } if (last) *last = !empty && TEAMS.back()->cuts[t + 1] == TEAMS.back()->cuts.back(); *st = (int64_t)(oup - olo + 1); }
void __kmpc_for_static_init_8(void*, int, int, int* last, int64_t* lo, int64_t* up, int64_t* st, int64_t inc, int64_t) { int t = omp_get_thread_num(); long l, u; int64_t olo = *lo, oup = *up; bounds(olo, oup, inc, &l, &u, t); bool empty = TEAMS.back()->cuts[t] == TEAMS.back()->cuts[t + 1]; if (empty) { *lo = 1; *up = 0; } else { *lo = l; *up = u; } if (last) *last = !empty && TEAMS.back()->cuts[t + 1] == TEAMS.back()->cuts.back(); *st = oup - olo + 1; }
void __kmpc_for_static_init_4(void*, int, int, int* last, int32_t* lo, int32_t* up, int32_t* st, int32_t inc, int32_t) { int t = omp_get_thread_num(); long l, u; int32_t olo = *lo, oup = *up; bounds(olo, oup, inc, &l, &u, t); bool empty = TEAMS.back()->cuts[t] == TEAMS.back()->cuts[t + 1]; if (empty) { *lo = 1; *up = 0; } else { *lo = (int)l; *up = (int)u; } if (last) *last = !empty && TEAMS.back()->cuts[t + 1] == TEAMS.back()->cuts.back(); *st = oup - olo + 1; }
void __kmpc_for_static_init_4u(void* a, int b, int c, int* last, uint32_t* lo, uint32_t* up, int32_t* st, int32_t inc, int32_t ch) { if (*up == (uint32_t)-1 || *lo > *up) { *lo = 1; *up = 0; if (last) *last = 0; return; } __kmpc_for_static_init_4(a, b, c, last, (int32_t*)lo, (int32_t*)up, st, inc, ch); }
void __kmpc_for_static_fini(void*, int) { if (!TEAMS.empty()) { /* one worksharing loop per region in this code base */ } }
// dynamic schedules: each thread takes the contiguous share of `bounds`
struct Disp { bool taken = false; long lo, up, inc; }; static std::map<std::pair<void*, int>, Disp> DISP;
void __kmpc_dispatch_init_8u(void*, int, int, uint64_t lo, uint64_t up, int64_t inc, int64_t) { DISP[{TEAMS.back(), omp_get_thread_num()}] = Disp{up == (uint64_t)-1 || lo > up, (long)lo, (long)up, inc}; }
int __kmpc_dispatch_next_8u(void*, int, int* last, uint64_t* lo, uint64_t* up, int64_t* st) { int t = omp_get_thread_num(); Disp& d = DISP[{TEAMS.back(), t}]; if (d.taken) return 0; d.taken = true; long l, u; bounds(d.lo, d.up, d.inc, &l, &u, t); if (TEAMS.back()->cuts[t] == TEAMS.back()->cuts[t + 1]) return 0; *lo = l; *up = u; *st = d.inc; if (last) *last = TEAMS.back()->cuts[t + 1] == TEAMS.back()->cuts.back(); return 1; }
void __kmpc_dispatch_init_4(void* a, int b, int c, int32_t lo, int32_t up, int32_t inc, int32_t) { (void)a; (void)b; (void)c; DISP[{TEAMS.back(), omp_get_thread_num()}] = Disp{lo > up, lo, up, inc}; }
int __kmpc_dispatch_next_4(void* a, int b, int* last, int32_t* lo, int32_t* up, int32_t* st) { uint64_t l, u; int64_t s; int r = __kmpc_dispatch_next_8u(a, b, last, &l, &u, &s); if (r) { *lo = (int)l; *up = (int)u; *st = (int)s; } return r; }
void __kmpc_dispatch_init_8(void* a, int b, int c, int64_t lo, int64_t up, int64_t inc, int64_t ch) { (void)a; (void)b; (void)c; (void)ch; DISP[{TEAMS.back(), omp_get_thread_num()}] = Disp{lo > up, lo, up, inc}; }
int __kmpc_dispatch_next_8(void* a, int b, int* last, int64_t* lo, int64_t* up, int64_t* st) { return __kmpc_dispatch_next_8u(a, b, last, (uint64_t*)lo, (uint64_t*)up, st); }
void __kmpc_dispatch_deinit(void*, int) {}
void __kmpc_barrier(void*, int) { if (TEAMS.empty() || !TEAMS.back()->s) return; Sched* s = SS.back(); s->cur->blocked = true; int me = TID.back(); co_yield(s); TID.back() = me; TEAMS.back()->cuts.clear(); }
void __kmpc_critical(void*, int, void*) { CRIT++; } void __kmpc_end_critical(void*, int, void*) { CRIT--; }
void __kmpc_critical_with_hint(void*, int, void*, unsigned) { CRIT++; }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { CRIT++; return 1; } void __kmpc_end_reduce_nowait(void*, int, void*) { CRIT--; }
int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { CRIT++; return 1; } void __kmpc_end_reduce(void*, int, void*) { CRIT--; }
int __kmpc_single(void*, int) { return omp_get_thread_num() == 0; } void __kmpc_end_single(void*, int) {} int __kmpc_master(void*, int) { return omp_get_thread_num() == 0; } void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int f) { return omp_get_thread_num() == f; } void __kmpc_end_masked(void*, int) {}
void __kmpc_flush(void*) {} void __kmpc_serialized_parallel(void*, int) { TEAMS.push_back(new Team{1, {}, 0, nullptr}); TID.push_back(0); } void __kmpc_end_serialized_parallel(void*, int) { TEAMS.pop_back(); TID.pop_back(); }

// ---------------------------------------------------------------- MPI
}
struct Msg { int src, dst, tag; vector<char> data; long id; };
struct Coll { string kind; int arrived = 0, left = 0; vector<vector<char>> in; vector<char> res; };
static Sched* MS = nullptr; static int NR = 0; static std::deque<Msg> MSGS; static std::map<long, Coll> COLLS; static vector<long> CSEQ; static bool MPROG = false, MERR = false; static int FREEA = 0; static long NCHOICE = 0, MSGID = 0; static int REND = 0;
extern "C" void par_mpi_mode(int a, int r) { FREEA = a; REND = r; }
static void block(); static int me() { return MS && MS->cur ? MS->cur->id : 0; }
static void block() { Co* c = MS->cur; c->blocked = true; co_yield(MS); c->blocked = false; }
int par_mpi_run(int n, const std::function<void(int)>& fn) {
  Sched s; MS = &s; NR = n; MSGS.clear(); COLLS.clear(); CSEQ.assign(n, 0); SS.push_back(&s); MERR = false; int dead = 0;
  for (int i = 0; i < n; i++) s.co.push_back(co_new(i, [&fn, i]() { fn(i); }));
  int left = n; while (left) { MPROG = false; for (int i = 0; i < n; i++) { Co* c = s.co[i]; if (c->done) continue; bool wasb = c->blocked; co_resume(&s, c); if (c->done) { left--; MPROG = true; } else if (!wasb || !c->blocked) MPROG = true; } if (left && !MPROG) { dead = 1; break; } }
  SS.pop_back(); MS = nullptr; std::exception_ptr ex; for (Co* c : s.co) { if (c->ex && !ex) ex = c->ex; c->ex = nullptr; if (!dead) co_free(c); } if (ex) std::rethrow_exception(ex); return dead;
}
static size_t tsz(MPI_Datatype t) { switch (t) { case 1: case 6: return 1; case 2: case 7: return 4; default: return 8; } }
extern "C" {
int MPI_Init(int*, char***) { return 0; } int MPI_Finalize(void) { return 0; } int MPI_Initialized(int* f) { *f = 1; return 0; } int MPI_Abort(MPI_Comm, int) { rt_crash("MPI_Abort"); return 0; } double MPI_Wtime(void) { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = me(); return 0; } int MPI_Comm_size(MPI_Comm, int* r) { *r = NR; return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { if (n < 0 || dst < 0 || dst >= NR) rt_crash("MPI_Send: invalid count or rank"); Msg m{me(), dst, tag, {}, ++MSGID}; m.data.assign((const char*)b, (const char*)b + n * tsz(t)); long id = m.id; MSGS.push_back(m); MPROG = true; if (REND) for (;;) { bool in = false; for (auto& q : MSGS) if (q.id == id) in = true; if (!in) break; block(); } return 0; }
static int find_msg(int src, int tag) { vector<int> c; std::map<int,int> seen; for (size_t i = 0; i < MSGS.size(); i++) { Msg& m = MSGS[i]; if (m.dst != me() || (src >= 0 && m.src != src) || (tag >= 0 && m.tag != tag)) continue; if (seen[m.src]++) continue; c.push_back((int)i); } if (c.empty()) return -1; if (FREEA && c.size() > 1 && src < 0) { int k = sym_int(("mpiarr" + std::to_string(NCHOICE++)).c_str(), 0, (int)c.size() - 1); return c[k]; } return c[0]; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
  if (n < 0) rt_crash("MPI_Recv: negative count");
  if (src < 0 && FREEA) co_yield(MS);
  int i; while ((i = find_msg(src, tag)) < 0) block(); Msg m = MSGS[i]; MSGS.erase(MSGS.begin() + i); MPROG = true;
  if (m.data.size() > (size_t)n * tsz(t)) rt_crash("MPI_Recv: message truncated"); memcpy(b, m.data.data(), m.data.size()); if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->count_ = (int)m.data.size(); } return 0; }
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st) { int i; while ((i = find_msg(src, tag)) < 0) block(); if (st) { st->MPI_SOURCE = MSGS[i].src; st->MPI_TAG = MSGS[i].tag; st->count_ = (int)MSGS[i].data.size(); } return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->count_ / (int)tsz(t); return 0; }
}
static Coll& coll(const string& kind, const void* b, size_t nb) { int r = me(); long k = CSEQ[r]++; Coll& c = COLLS[k]; if (c.arrived == 0) { c.kind = kind; c.in.resize(NR); } else if (c.kind != kind) rt_crash(("MPI collectives do not match: " + c.kind + " vs " + kind).c_str()); c.in[r].assign((const char*)b, (const char*)b + nb); c.arrived++; MPROG = true; while (c.arrived < NR) block(); return c; }
static void red(char* acc, const char* x, int n, MPI_Datatype t, MPI_Op op) {
  for (int i = 0; i < n; i++) switch (t) {
    case 5: { double *a = (double*)acc + i, b = ((const double*)x)[i]; if (op == 1) *a = __sym_fadd(*a, b); else if (op == 4) *a = __sym_fmul(*a, b); else if (op == 2) { if (__sym_fcmp(2, b, *a)) *a = b; } else if (op == 3) { if (__sym_fcmp(4, b, *a)) *a = b; } break; }
    case 2: { int *a = (int*)acc + i, b = ((const int*)x)[i]; *a = op == 1 ? *a + b : op == 4 ? *a * b : op == 2 ? (b > *a ? b : *a) : op == 3 ? (b < *a ? b : *a) : op == 5 ? (*a && b) : (*a || b); break; }
    case 4: { unsigned long *a = (unsigned long*)acc + i, b = ((const unsigned long*)x)[i]; *a = op == 1 ? *a + b : op == 4 ? *a * b : op == 2 ? (b > *a ? b : *a) : (b < *a ? b : *a); break; }
    case 3: { long *a = (long*)acc + i, b = ((const long*)x)[i]; *a = op == 1 ? *a + b : op == 4 ? *a * b : op == 2 ? (b > *a ? b : *a) : (b < *a ? b : *a); break; }
    default: { unsigned char *a = (unsigned char*)acc + i, b = ((const unsigned char*)x)[i]; *a = op == 5 ? (*a && b) : op == 6 ? (*a || b) : op == 2 ? (b > *a ? b : *a) : op == 3 ? (b < *a ? b : *a) : (unsigned char)(*a + b); } }
}
extern "C" {
int MPI_Barrier(MPI_Comm) { coll("barrier", "", 0); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { if (n < 0) rt_crash("MPI_Bcast: negative count"); Coll& c = coll("bcast" + std::to_string(root), b, n * tsz(t)); if (c.in[root].size() != n * tsz(t)) rt_crash("MPI_Bcast: counts differ between ranks"); memcpy(b, c.in[root].data(), n * tsz(t)); return 0; }
static void reduce_all(Coll& c, int n, MPI_Datatype t, MPI_Op op) { if (c.res.empty() && n) { for (int r = 0; r < NR; r++) if (c.in[r].size() != n * tsz(t)) rt_crash("MPI_Reduce: counts differ between ranks"); c.res = c.in[0]; for (int r = 1; r < NR; r++) red(c.res.data(), c.in[r].data(), n, t, op); } }
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { Coll& c = coll("reduce" + std::to_string(root) + "." + std::to_string(op), s == MPI_IN_PLACE ? d : s, n * tsz(t)); if (me() == root) { reduce_all(c, n, t, op); memcpy(d, c.res.data(), n * tsz(t)); } return 0; }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { Coll& c = coll("allreduce." + std::to_string(op), s == MPI_IN_PLACE ? d : s, n * tsz(t)); reduce_all(c, n, t, op); memcpy(d, c.res.data(), n * tsz(t)); return 0; }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int, MPI_Datatype, MPI_Comm) { size_t b = n * tsz(t); Coll& c = coll("allgather", s == MPI_IN_PLACE ? (char*)d + me() * b : s, b); for (int r = 0; r < NR; r++) memcpy((char*)d + r * b, c.in[r].data(), b); return 0; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int, MPI_Datatype, int root, MPI_Comm) { size_t b = n * tsz(t); Coll& c = coll("gather", s, b); if (me() == root) for (int r = 0; r < NR; r++) memcpy((char*)d + r * b, c.in[r].data(), c.in[r].size()); return 0; }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* d, int m, MPI_Datatype, int root, MPI_Comm) { size_t b = n * tsz(t); Coll& c = coll("scatter", me() == root ? s : "", me() == root ? b * NR : 0); memcpy(d, c.in[root].data() + me() * m * tsz(t), m * tsz(t)); return 0; }
int MPI_Scatterv(const void* s, const int* cnt, const int* dis, MPI_Datatype t, void* d, int m, MPI_Datatype, int root, MPI_Comm) { static std::map<long, vector<std::pair<int,int>>> lay; long key = CSEQ[me()]; size_t tot = 0; if (me() == root) { auto& l = lay[key]; l.clear(); for (int r = 0; r < NR; r++) { l.push_back({cnt[r], dis[r]}); size_t e = (size_t)(cnt[r] + dis[r]); if (cnt[r] > 0 && e > tot) tot = e; } } Coll& c = coll("scatterv", me() == root ? s : "", tot * tsz(t)); auto p = lay[key][me()]; if (p.first > m) rt_crash("MPI_Scatterv: message truncated"); if (d != MPI_IN_PLACE) memcpy(d, c.in[root].data() + p.second * tsz(t), p.first * tsz(t)); return 0; }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* d, const int* cnt, const int* dis, MPI_Datatype, int root, MPI_Comm) { Coll& c = coll("gatherv", s, n * tsz(t)); if (me() == root) for (int r = 0; r < NR; r++) { if (c.in[r].size() > cnt[r] * tsz(t)) rt_crash("MPI_Gatherv: truncated"); memcpy((char*)d + dis[r] * tsz(t), c.in[r].data(), c.in[r].size()); } return 0; }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* d, const int* cnt, const int* dis, MPI_Datatype, MPI_Comm) { Coll& c = coll("allgatherv", s == MPI_IN_PLACE ? (char*)d + dis[me()] * tsz(t) : s, n * tsz(t)); for (int r = 0; r < NR; r++) memcpy((char*)d + dis[r] * tsz(t), c.in[r].data(), c.in[r].size()); return 0; }
}

#ifdef PAR_WRAP
void* operator new(size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); } void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); } void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
#endif
