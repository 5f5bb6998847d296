#include "tsrt.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>

extern "C" void * __real_memcpy(void *, void const *, size_t);
extern "C" void * __real_memset(void *, int, size_t);
extern "C" void * __real_memmove(void *, void const *, size_t);
extern "C" void __real_free(void *);

thread_local int serial_tid = 0;

namespace
{
constexpr int MAXT = 16, LOOPS = 64;
struct Entry { uintptr_t key; uint32_t gen; uint16_t w[8], r[8], pw[8], pr[8]; };
constexpr size_t TAB = 1 << 21;
Entry * tab; uint32_t gen = 1; size_t used;
bool recording = false;         // some actor's accesses are recorded
thread_local int tid = -1;      // worker / actor id
thread_local int team_size = 1;
thread_local bool busy = false; // inside the runtime
thread_local int protect = 0;   // critical sections held

char conflict[512]; bool has_conflict = false;
rt::Conf * conf; rt::Report * rep; bool controlled = false;

// deferred frees: no address is reused while accesses are being compared
void ** dead; size_t ndead, capdead;
void defer(void * p)
{
    if (ndead == capdead) { capdead = capdead ? 2 * capdead : 4096; dead = (void **)realloc(dead, capdead * sizeof *dead); }
    dead[ndead++] = p;
}
void flush() { for (size_t i = 0; i < ndead; ++i) __real_free(dead[i]); ndead = 0; }

Entry * find(uintptr_t key)
{
    size_t h = (key * 0x9e3779b97f4a7c15ull) >> 43;
    for (;; h = (h + 1) & (TAB - 1))
    {
        Entry & e = tab[h];
        if (e.gen != gen)
        {
            if (++used > TAB / 2) { fprintf(stderr, "access table is full\n"); abort(); }
            memset(&e, 0, sizeof e); e.gen = gen; e.key = key; return &e;
        }
        if (e.key == key) return &e;
    }
}
void clear_table() { if (!tab) tab = (Entry *)calloc(TAB, sizeof (Entry)); ++gen; used = 0; }

// cooperative scheduler -------------------------------------------------------------
enum Status { READY, BARRIER, LOCK, DONE };
struct Team
{
    int n; Status st[MAXT]; sem_t go[MAXT]; sem_t end; long step = 0; int cur; bool lock = false; bool stuck = false;
    int order[MAXT];
    // work sharing: the k-th loop (or single) that a thread comes to is the k-th one of the team
    struct Loop { long stop, incr, chunk, next; } loops[LOOPS]; int nloops = 0, at[MAXT] = {}; int singles = 0, sat[MAXT] = {};
    uintptr_t master_frame;
} * T = nullptr;
thread_local uintptr_t stack_lo = 0, stack_hi = 0;

void switch_to(int me, int to)
{
    if (me == to) return;
    ++rep->switches; T->cur = to;
    sem_post(&T->go[to]);
    while (sem_wait(&T->go[me])) { }
}
int pick(int me)
{
    for (int k = 0; k < T->n; ++k) { int t = T->order[k]; if (t != me && T->st[t] == READY) return t; }
    return -1;
}
// the current worker cannot continue
void yield_blocked()
{
    int const me = tid;
    int to = pick(me);
    if (to < 0)
    {
        bool bar = true, any = false;
        for (int t = 0; t < T->n; ++t) { if (T->st[t] == BARRIER) any = true; else if (T->st[t] != DONE) bar = false; }
        if (any && bar) { clear_table(); for (int t = 0; t < T->n; ++t) if (T->st[t] == BARRIER) T->st[t] = READY; return; }
        T->stuck = true; rep->stuck = true; fprintf(stderr, "deadlock between workers\n"); abort();
    }
    switch_to(me, to);
}
void finish(int me)
{
    T->st[me] = DONE;
    int to = pick(me);
    if (to < 0)
    {
        bool any = false;
        for (int t = 0; t < T->n; ++t) if (T->st[t] == BARRIER) { T->st[t] = READY; any = true; }
        if (any) clear_table();
        if (any) to = pick(me);
    }
    if (to >= 0) { ++rep->switches; T->cur = to; sem_post(&T->go[to]); }
    else sem_post(&T->end);
}
void point()
{
    long const k = T->step++;
    if (!conf) return;
    if (conf->region >= 0 && conf->region != rep->parallel_regions - 1) return;
    for (auto & p : conf->preempts)
        if (p.step == k && p.to < T->n && p.to != tid && T->st[p.to] == READY) switch_to(tid, p.to);
}

void access_(void const * p, size_t n, bool write, bool atomic);
inline __attribute__((always_inline)) void access(void const * p, size_t n, bool write, bool atomic) { if (__builtin_expect(recording, 0)) access_(p, n, write, atomic); }
void access_(void const * p, size_t n, bool write, bool atomic)
{
    if (tid < 0 || busy) return;
    busy = true;
    uintptr_t a = (uintptr_t)p;
    uint16_t const bit = 1u << tid;
    bool const prot = atomic || protect;
    if (!T && a >= stack_lo && a < stack_hi) { busy = false; return; }
    if (rep) ++rep->accesses;
    if (T)
    {
        bool const own = a >= stack_lo && a < stack_hi && !(tid == 0 && a >= T->master_frame);
        if (!own) { busy = false; point(); busy = true; }
    }
    Entry * e = nullptr;
    for (size_t i = 0; i < n; ++i)
    {
        if (!e || e->key != (a + i) >> 3) e = find((a + i) >> 3);
        int const b = (a + i) & 7;
        uint16_t const others = write
            ? ((e->w[b] | e->r[b]) | (prot ? 0 : e->pw[b] | e->pr[b])) & ~bit
            : (e->w[b] | (prot ? 0 : e->pw[b])) & ~bit;
        if (others && !has_conflict)
        {
            has_conflict = true;
            snprintf(conflict, sizeof conflict, "worker %d %s a location (%zu bytes at offset %zu of an access) that worker %d %s", tid, write ? "writes" : "reads", n, i,
                __builtin_ctz(others), ((e->w[b] | e->pw[b]) & others) ? "writes" : "reads");
        }
        if (write) (prot ? e->pw : e->w)[b] |= bit; else (prot ? e->pr : e->r)[b] |= bit;
    }
    busy = false;
}

void own_stack()
{
    pthread_attr_t at; void * lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stack_lo = (uintptr_t)lo; stack_hi = stack_lo + sz;
}
struct Start { void (*fn)(void *); void * data; int id; };
void body(int id, void (*fn)(void *), void * data)
{
    tid = id; team_size = T->n; busy = false; protect = 0;
    own_stack();
    while (sem_wait(&T->go[id])) { }
    fn(data);
    finish(id);
}
void * thread_main(void * a) { Start * s = (Start *)a; body(s->id, s->fn, s->data); return nullptr; }

void run_team(void (*fn)(void *), void * data, unsigned n, Team & t)
{
    if (n == 0) n = 4;
    if (n > MAXT) n = MAXT;
    if (controlled && conf && conf->team > 0 && (int)n > conf->team) n = conf->team;
    if (!controlled || T) n = 1;
    if (n == 1)
    {
        // serial: one worker after the other (actors being recorded keep their identity)
        int const old = tid, oldsz = team_size;
        if (controlled && rep && !T) ++rep->regions;
        int const oldserial = serial_tid;
        for (unsigned i = 0; i < n; ++i) { serial_tid = (int)i; team_size = (int)n; fn(data); }
        serial_tid = oldserial; team_size = oldsz; tid = old;
        return;
    }
    ++rep->regions; ++rep->parallel_regions;
    if ((int)n > rep->max_team) rep->max_team = (int)n;
    clear_table();
    t.n = (int)n; t.step = 0; t.master_frame = (uintptr_t)__builtin_frame_address(0);
    bool const mine = conf && (conf->region < 0 || conf->region == rep->parallel_regions - 1);
    int k = 0; bool in[MAXT] = {};
    if (mine) for (int o : conf->order) if (o >= 0 && o < t.n && !in[o]) { t.order[k++] = o; in[o] = true; }
    for (int o = 0; o < t.n; ++o) if (!in[o]) t.order[k++] = o;
    for (int i = 0; i < t.n; ++i) { t.st[i] = READY; sem_init(&t.go[i], 0, 0); }
    sem_init(&t.end, 0, 0);
    pthread_t th[MAXT]; Start st[MAXT];
    T = &t; recording = true;
    for (int i = 1; i < t.n; ++i) { st[i] = {fn, data, i}; pthread_create(&th[i], nullptr, thread_main, &st[i]); }
    t.cur = t.order[0];
    sem_post(&t.go[t.order[0]]);
    int const old = tid;
    body(0, fn, data);
    while (sem_wait(&t.end)) { }
    for (int i = 1; i < t.n; ++i) pthread_join(th[i], nullptr);
    recording = false; T = nullptr; tid = old; team_size = 1;
    rep->steps.push_back(t.step);
    for (int i = 0; i < t.n; ++i) sem_destroy(&t.go[i]);
    sem_destroy(&t.end);
    flush();
}
}

namespace rt
{
void begin(Conf const & c) { has_conflict = false; conf = new Conf(c); rep = new Report; controlled = true; clear_table(); }
Report end()
{
    controlled = false;
    Report r = *rep; if (has_conflict) r.conflict = conflict;
    delete rep; delete conf; rep = nullptr; conf = nullptr;
    return r;
}
void record_begin(int id, bool fresh)
{
    if (fresh) { flush(); clear_table(); has_conflict = false; if (rep) rep->accesses = 0; }
    if (!rep) rep = new Report;
    own_stack();
    tid = id; recording = true;
}
Report record_end()
{
    recording = false; tid = -1;
    Report r = *rep; if (has_conflict) r.conflict = conflict;
    return r;
}
}

// allocation ---------------------------------------------------------------------------
static inline bool hold() { return (T && tid >= 0) || (recording && !controlled && tid >= 0); }
extern "C" void __wrap_free(void * p) { if (!p) return; if (hold() && !busy) { busy = true; defer(p); busy = false; } else __real_free(p); }
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, std::align_val_t a) { void * p = memalign((size_t)a, n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void * p) noexcept { __wrap_free(p); }
void operator delete[](void * p) noexcept { __wrap_free(p); }
void operator delete(void * p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void * p, size_t) noexcept { __wrap_free(p); }
void operator delete(void * p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

extern "C"
{
void * __wrap_memcpy(void * d, void const * s, size_t n) { if (recording && n) { access(s, n, false, false); access(d, n, true, false); } return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, void const * s, size_t n) { if (recording && n) { access(s, n, false, false); access(d, n, true, false); } return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { if (recording && n) access(d, n, true, false); return __real_memset(d, c, n); }

// compiler callbacks -------------------------------------------------------------------
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
#define RW(N) \
    void __tsan_read##N(void * p) { access(p, N, false, false); } \
    void __tsan_write##N(void * p) { access(p, N, true, false); } \
    void __tsan_volatile_read##N(void * p) { access(p, N, false, false); } \
    void __tsan_volatile_write##N(void * p) { access(p, N, true, false); } \
    void __tsan_unaligned_read##N(void * p) { access(p, N, false, false); } \
    void __tsan_unaligned_write##N(void * p) { access(p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { access(p, n, false, false); }
void __tsan_write_range(void * p, unsigned long n) { access(p, n, true, false); }
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true, false); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, false); }
#define AT(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY * p, int) { access((void *)p, sizeof *p, false, true); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##B##_store(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); __atomic_store_n(p, v, 5); } \
    TY __tsan_atomic##B##_exchange(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_exchange_n(p, v, 5); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_fetch_add(p, v, 5); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_fetch_sub(p, v, 5); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_fetch_and(p, v, 5); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_fetch_or(p, v, 5); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY * p, TY v, int) { access((void *)p, sizeof *p, true, true); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY * p, TY * c, TY v, int, int) { access((void *)p, sizeof *p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY * p, TY * c, TY v, int, int) { access((void *)p, sizeof *p, true, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY * p, TY c, TY v, int, int) { access((void *)p, sizeof *p, true, true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { }

// OpenMP -------------------------------------------------------------------------------
int omp_get_thread_num() { return T && tid >= 0 ? tid : serial_tid; }
int omp_get_num_threads() { return team_size; }
int omp_get_max_threads() { return 8; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team_size > 1; }
int omp_get_level() { return T != nullptr; }
int omp_get_dynamic() { return 0; }
void omp_set_num_threads(int) { }
void omp_set_dynamic(int) { }
int omp_get_thread_limit() { return 1 << 20; }
void GOMP_parallel(void (*fn)(void *), void * data, unsigned n, unsigned) { Team t; run_team(fn, data, n, t); }
static Team serial_ws;
static Team & ws() { return T && tid >= 0 ? *T : serial_ws; }
static int ws_me() { return T && tid >= 0 ? tid : 0; }
static Team::Loop ws_loop(long a, long b, long inc, long chunk) { return {b, inc, chunk > 0 ? chunk : 1, a}; }
static void ws_all(Team & t, long a, long b, long inc, long chunk) { t.loops[0] = ws_loop(a, b, inc, chunk); t.nloops = 1; for (auto & k : t.at) k = 1; }
static void ws_start(long a, long b, long inc, long chunk)
{
    Team & t = ws();
    if (&t == &serial_ws) { ws_all(t, a, b, inc, chunk); return; }
    int const k = t.at[ws_me()]++;
    if (k == t.nloops) t.loops[t.nloops++ % LOOPS] = ws_loop(a, b, inc, chunk);
}
static bool ws_next(long * a, long * b)
{
    if (T && tid >= 0) point();
    auto & t = ws().loops[(ws().at[ws_me()] - 1) % LOOPS];
    if (t.incr > 0 ? t.next >= t.stop : t.next <= t.stop) return false;
    *a = t.next; long e = t.next + t.chunk * t.incr;
    if (t.incr > 0 ? e > t.stop : e < t.stop) e = t.stop;
    *b = e; t.next = e;
    return true;
}
#define PLOOP(NAME, ...) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void * data, unsigned n, long a, long b, long inc, long chunk, unsigned) { Team t; ws_all(t, a, b, inc, chunk); ws_all(serial_ws, a, b, inc, chunk); run_team(fn, data, n, t); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOPR(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void * data, unsigned n, long a, long b, long inc, unsigned) { Team t; ws_all(t, a, b, inc, 1); ws_all(serial_ws, a, b, inc, 1); run_team(fn, data, n, t); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LNEXT(NAME) bool GOMP_loop_##NAME##_next(long * a, long * b) { return ws_next(a, b); } \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long * a, long * b) { ws_start(s, e, i, c); return ws_next(a, b); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long * a, unsigned long long * b) { return ws_next((long *)a, (long *)b); } \
    bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long * a, unsigned long long * b) { ws_start((long)s, (long)e, (long)i, (long)c); return ws_next((long *)a, (long *)b); }
LNEXT(static) LNEXT(dynamic) LNEXT(guided) LNEXT(nonmonotonic_dynamic) LNEXT(nonmonotonic_guided)
#define LNEXTR(NAME) bool GOMP_loop_##NAME##_next(long * a, long * b) { return ws_next(a, b); } \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long * a, long * b) { ws_start(s, e, i, 1); return ws_next(a, b); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long * a, unsigned long long * b) { return ws_next((long *)a, (long *)b); } \
    bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long * a, unsigned long long * b) { ws_start((long)s, (long)e, (long)i, 1); return ws_next((long *)a, (long *)b); }
LNEXTR(runtime) LNEXTR(nonmonotonic_runtime) LNEXTR(maybe_nonmonotonic_runtime)
void GOMP_barrier() { if (T && tid >= 0) { T->st[tid] = BARRIER; int me = tid; yield_blocked(); T->st[me] = READY; } }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() { }
void GOMP_critical_start() { if (T && tid >= 0) { while (T->lock) { T->st[tid] = LOCK; int to = pick(tid); if (to < 0) { T->st[tid] = READY; fprintf(stderr, "deadlock\n"); abort(); } int me = tid; switch_to(me, to); T->st[me] = READY; } T->lock = true; ++protect; } }
void GOMP_critical_end() { if (T && tid >= 0) { T->lock = false; --protect; for (int t = 0; t < T->n; ++t) if (T->st[t] == LOCK) T->st[t] = READY; } }
void GOMP_critical_name_start(void **) { GOMP_critical_start(); }
void GOMP_critical_name_end(void **) { GOMP_critical_end(); }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
bool GOMP_single_start() { if (!(T && tid >= 0)) return true; bool const mine = T->sat[tid]++ == T->singles; T->singles += mine; return mine; }
static unsigned section() { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { ws_start(1, (long)n + 1, 1, 1); return section(); }
unsigned GOMP_sections_next() { return section(); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() { }
void GOMP_parallel_sections(void (*fn)(void *), void * data, unsigned n, unsigned count, unsigned) { Team t; ws_all(t, 1, (long)count + 1, 1, 1); ws_all(serial_ws, 1, (long)count + 1, 1, 1); run_team(fn, data, n, t); }
// a task is run where it is made: one of its legal schedules
void GOMP_task(void (*fn)(void *), void * data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    std::vector<char> room(size + align + 1); char * p = (char *)(((uintptr_t)room.data() + align - 1) / (align ? align : 1) * (align ? align : 1));
    if (cpy) cpy(p, data); else memcpy(p, data, size);
    fn(p);
}
static void taskloop(void (*fn)(void *), void * data, void (*cpy)(void *, void *), long size, long align, long start, long end)
{
    std::vector<char> room(size + align + 1); char * p = (char *)(((uintptr_t)room.data() + align - 1) / (align ? align : 1) * (align ? align : 1));
    if (cpy) cpy(p, data); else memcpy(p, data, size);
    ((long *)p)[0] = start; ((long *)p)[1] = end;
    fn(p);
}
void GOMP_taskloop(void (*fn)(void *), void * data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long) { taskloop(fn, data, cpy, size, align, start, end); }
void GOMP_taskloop_ull(void (*fn)(void *), void * data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, unsigned long long start, unsigned long long end, unsigned long long) { taskloop(fn, data, cpy, size, align, (long)start, (long)end); }
void GOMP_taskwait() { }
void GOMP_taskyield() { }
void GOMP_taskgroup_start() { }
void GOMP_taskgroup_end() { }
int omp_get_active_level() { return T != nullptr; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) { }
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { return 0; }
}
