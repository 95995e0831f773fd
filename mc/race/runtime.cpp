// A controlled OpenMP runtime with a race monitor, linked into the simulator core that is compiled with -fopenmp -fsanitize=thread.
// The threads of a parallel region are coroutines on one OS thread: the driver decides how many there are and in which order they run
// (each runs to its next barrier). Every memory access of a region is recorded per thread; two accesses of one phase (between two
// barriers) to the same byte by different threads, at least one a write, not both atomic and not under a common lock, are dependent
// transitions that no synchronisation orders: a race. Without such a pair every schedule is equivalent to the one that was run.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ucontext.h>
#include <vector>

namespace {
const int MAXT = 8;
const std::size_t STACK = 512 * 1024;
int team_size = 1;
int order[MAXT] = {0, 1, 2, 3, 4, 5, 6, 7};
// statistics
unsigned long n_regions, n_team_regions, n_phases, n_access, n_races, n_shared;
char first_race[512];

// own element types only: template code shared with the instrumented object would be instrumented itself
struct Slot { std::uint32_t v; };
struct Block { void *p; };
struct Once {};
struct Word { std::uint64_t key; std::uint8_t r[MAXT], w[MAXT], ar[MAXT], aw[MAXT]; };  // byte masks per thread: plain and atomic reads / writes
std::vector<Word> table;
std::vector<Slot> used;
std::size_t tmask;

struct Thread { ucontext_t ctx; char *stack; bool done; int locked; unsigned long nloops; bool hold; };
Thread threads[MAXT];
ucontext_t back;
int cur = -1;      // running thread of the region, -1 outside
int nthreads = 0;  // threads of the current region
void (*body)(void *);
void *body_data;
std::vector<Block> deferred;
int depth = 0;  // nested regions run alone

struct Loop { bool live; bool started; long next, end, incr, chunk; bool up; };
std::vector<Loop> loops;
std::vector<Once> singles;
unsigned long singles_seen[MAXT];

void grow(std::size_t n) {
    table.assign(n, Word());
    used.clear();
    tmask = n - 1;
}

Word &slot(std::uint64_t word) {
    if (table.empty()) grow(1 << 14);
    if (used.size() * 2 > table.size()) {
        std::vector<Word> old;
        old.swap(table);
        std::size_t n = old.size() * 4;
        grow(n);
        for (auto &o : old)
            if (o.key) {
                std::size_t h = (o.key * 0x9E3779B97F4A7C15ull >> 20) & tmask;
                while (table[h].key) h = (h + 1) & tmask;
                table[h] = o;
                used.push_back(Slot{(std::uint32_t)h});
            }
    }
    std::size_t h = (word * 0x9E3779B97F4A7C15ull >> 20) & tmask;
    while (table[h].key && table[h].key != word) h = (h + 1) & tmask;
    if (!table[h].key) {
        table[h].key = word;
        used.push_back(Slot{(std::uint32_t)h});
    }
    return table[h];
}

void record(std::uintptr_t a, std::size_t size, bool write, bool atomic) {
    if (cur < 0 || nthreads < 2 || threads[cur].hold) return;
    ++n_access;
    bool at = atomic || threads[cur].locked;
    while (size) {
        std::uint64_t word = (a >> 3) + 1;
        unsigned off = a & 7, len = 8 - off;
        if (len > size) len = size;
        std::uint8_t m = ((1u << len) - 1) << off;
        Word &e = slot(word);
        for (int t = 0; t < nthreads; ++t) {
            if (t == cur) continue;
            // plain against anything, atomic against plain
            std::uint8_t other_w = at ? e.w[t] : e.w[t] | e.aw[t], other_r = at ? e.r[t] : e.r[t] | e.ar[t];
            if ((m & other_w) || (write && (m & other_r))) {
                if (!n_races++) {
                    // a loop that must not itself be broken: report once
                    std::snprintf(first_race, sizeof first_race, "threads %d and %d of %d: %s after %s of the same memory in the same phase", t, cur, nthreads,
                                  write ? "write" : "read", (m & other_w) ? "write" : "read");
                }
            } else if (m & (e.r[t] | e.w[t] | e.ar[t] | e.aw[t]))
                ++n_shared;
        }
        (write ? (at ? e.aw : e.w) : (at ? e.ar : e.r))[cur] |= m;
        a += len;
        size -= len;
    }
}

void new_phase() {
    ++n_phases;
    if (table.empty()) return;
    for (auto u : used) table[u.v] = Word();
    used.clear();
}

void yield_() { swapcontext(&threads[cur].ctx, &back); }

void barrier() {
    if (cur < 0 || nthreads < 2) return;
    yield_();
}

void entry() {
    int me = cur;
    body(body_data);
    threads[me].done = true;
    yield_();
}

void parallel(void (*fn)(void *), void *data, unsigned want) {
    ++n_regions;
    int T = want ? (int)want : team_size;
    if (T > MAXT) T = MAXT;
    if (cur >= 0 || T < 2) {  // nested or alone
        ++depth;
        fn(data);
        --depth;
        return;
    }
    ++n_team_regions;
    nthreads = T;
    body = fn;
    body_data = data;
    loops.clear();
    singles.clear();
    for (int t = 0; t < T; ++t) {
        Thread &h = threads[t];
        if (!h.stack) h.stack = (char *)std::malloc(STACK);
        h.done = false;
        h.locked = 0;
        h.hold = false;
        h.nloops = 0;
        singles_seen[t] = 0;
        getcontext(&h.ctx);
        h.ctx.uc_stack.ss_sp = h.stack;
        h.ctx.uc_stack.ss_size = STACK;
        h.ctx.uc_link = &back;
        makecontext(&h.ctx, entry, 0);
    }
    new_phase();
    for (bool any = true; any;) {
        any = false;
        int turn[MAXT], k = 0;
        for (int i = 0; i < MAXT; ++i)
            if (order[i] < T) turn[k++] = order[i];
        for (int i = 0; i < k; ++i) {
            int t = turn[i];
            if (threads[t].done) continue;
            cur = t;
            swapcontext(&back, &threads[t].ctx);
            cur = -1;
            any = true;
        }
        new_phase();
    }
    nthreads = 0;
    for (auto b : deferred) std::free(b.p);
    deferred.clear();
}
bool team() { return cur >= 0 && depth == 0 && nthreads > 1; }

bool take(Loop &l, long *istart, long *iend) {
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *istart = l.next;
    long e = l.next + l.incr * l.chunk;
    if (l.up ? e > l.end : e < l.end) e = l.end;
    *iend = e;
    l.next = e;
    return true;
}

bool loop_start(long start, long end, long incr, long chunk, long *istart, long *iend) {
    if (!team()) {
        static Loop own;
        loops.clear();
        own = Loop{true, true, start, end, incr, chunk ? chunk : 1, incr > 0};
        loops.push_back(own);
        return take(loops.back(), istart, iend);
    }
    std::size_t k = threads[cur].nloops++;
    if (loops.size() <= k) loops.push_back(Loop{true, true, start, end, incr, chunk ? chunk : 1, incr > 0});
    return take(loops[k], istart, iend);
}
bool loop_next(long *istart, long *iend) { return take(team() ? loops[threads[cur].nloops - 1] : loops.back(), istart, iend); }
}  // namespace

#define API extern "C" __attribute__((visibility("default")))

// ---- for the driver
API void race_config(int T, int const *ord) {
    team_size = T;
    int k = 0;
    bool seen[MAXT] = {false};
    for (; k < T; ++k) { order[k] = ord[k]; seen[ord[k]] = true; }
    for (int t = 0; t < MAXT; ++t) if (!seen[t]) order[k++] = t;
}
API void race_stats(unsigned long *out, char *msg) {
    out[0] = n_regions; out[1] = n_team_regions; out[2] = n_phases; out[3] = n_access; out[4] = n_races; out[5] = n_shared;
    std::memcpy(msg, first_race, sizeof first_race);
    n_races = 0;
    first_race[0] = 0;
}

// ---- the OpenMP runtime
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
API unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); return n ? n : team_size; }
API void GOMP_barrier() { if (team()) barrier(); }
API bool GOMP_barrier_cancel() { if (team()) barrier(); return false; }
API int omp_get_thread_num() { return team() ? cur : 0; }
API int omp_get_num_threads() { return team() ? nthreads : 1; }
API int omp_get_max_threads() { return team_size; }
API int omp_in_parallel() { return team(); }
API int omp_get_num_procs() { return team_size; }
API int omp_get_level() { return cur >= 0; }
API void omp_set_num_threads(int) {}
API void omp_set_dynamic(int) {}
API void omp_set_nested(int) {}
API double omp_get_wtime() { return 0; }
static void lock() { if (team()) ++threads[cur].locked; }
static void unlock() { if (team()) --threads[cur].locked; }
API void GOMP_critical_start() { lock(); }
API void GOMP_critical_end() { unlock(); }
API void GOMP_critical_name_start(void **) { lock(); }
API void GOMP_critical_name_end(void **) { unlock(); }
API void GOMP_atomic_start() { lock(); }
API void GOMP_atomic_end() { unlock(); }
API bool GOMP_single_start() {
    if (!team()) return true;
    std::size_t k = singles_seen[cur]++;
    if (singles.size() <= k) { singles.push_back(Once()); return true; }
    return false;
}
#define DYN(name) \
    API bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
    API bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
    API bool GOMP_loop_ull_##name##_start(bool, unsigned long a, unsigned long b, unsigned long i, unsigned long c, unsigned long *s, unsigned long *e) { return loop_start(a, b, i, c, (long *)s, (long *)e); } \
    API bool GOMP_loop_ull_##name##_next(unsigned long *s, unsigned long *e) { return loop_next((long *)s, (long *)e); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
#define RT(name) \
    API bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); } \
    API bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
    API bool GOMP_loop_ull_##name##_start(bool, unsigned long a, unsigned long b, unsigned long i, unsigned long *s, unsigned long *e) { return loop_start(a, b, i, 1, (long *)s, (long *)e); } \
    API bool GOMP_loop_ull_##name##_next(unsigned long *s, unsigned long *e) { return loop_next((long *)s, (long *)e); }
RT(runtime) RT(maybe_nonmonotonic_runtime) RT(nonmonotonic_runtime)
API void GOMP_loop_end() { if (team()) barrier(); }
API void GOMP_loop_end_nowait() {}
API void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned) {
    struct P { void (*fn)(void *); void *data; long a, b, i, c; };
    // the compiler emits loops started by the caller only for combined constructs; the body then only calls _next
    static P p;
    p = P{fn, data, a, b, i, c};
    parallel([](void *q) {
        P *p = (P *)q;
        // register the loop for this thread without taking a chunk
        if (team()) {
            std::size_t k = threads[cur].nloops++;
            if (loops.size() <= k) loops.push_back(Loop{true, true, p->a, p->b, p->i, p->c ? p->c : 1, p->i > 0});
        } else {
            loops.clear();
            loops.push_back(Loop{true, true, p->a, p->b, p->i, p->c ? p->c : 1, p->i > 0});
        }
        p->fn(p->data);
    }, &p, n);
}
API void GOMP_parallel_loop_guided(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, c, f); }
API void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, c, f); }
API void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, c, f); }
API void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, 1, f); }
API void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, a, b, i, 1, f); }

// ---- the instrumentation
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
API void __tsan_vptr_update(void **, void *) {}
API void __tsan_vptr_read(void **) {}
#define RW(n) \
    API void __tsan_read##n(void *p) { record((std::uintptr_t)p, n, false, false); } \
    API void __tsan_write##n(void *p) { record((std::uintptr_t)p, n, true, false); } \
    API void __tsan_unaligned_read##n(void *p) { record((std::uintptr_t)p, n, false, false); } \
    API void __tsan_unaligned_write##n(void *p) { record((std::uintptr_t)p, n, true, false); } \
    API void __tsan_volatile_read##n(void *p) { record((std::uintptr_t)p, n, false, false); } \
    API void __tsan_volatile_write##n(void *p) { record((std::uintptr_t)p, n, true, false); } \
    API void __tsan_unaligned_volatile_read##n(void *p) { record((std::uintptr_t)p, n, false, false); } \
    API void __tsan_unaligned_volatile_write##n(void *p) { record((std::uintptr_t)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, unsigned long n) { record((std::uintptr_t)p, n, false, false); }
API void __tsan_write_range(void *p, unsigned long n) { record((std::uintptr_t)p, n, true, false); }
#define AT(bits, T) \
    API T __tsan_atomic##bits##_load(T const volatile *p, int) { record((std::uintptr_t)p, sizeof(T), false, true); return *p; } \
    API void __tsan_atomic##bits##_store(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); *p = v; } \
    API T __tsan_atomic##bits##_exchange(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
    API T __tsan_atomic##bits##_fetch_add(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o + v; return o; } \
    API T __tsan_atomic##bits##_fetch_sub(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o - v; return o; } \
    API T __tsan_atomic##bits##_fetch_and(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o & v; return o; } \
    API T __tsan_atomic##bits##_fetch_or(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o | v; return o; } \
    API T __tsan_atomic##bits##_fetch_xor(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o ^ v; return o; } \
    API T __tsan_atomic##bits##_fetch_nand(T volatile *p, T v, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; *p = ~(o & v); return o; } \
    API int __tsan_atomic##bits##_compare_exchange_strong(T volatile *p, T *c, T v, int, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
    API int __tsan_atomic##bits##_compare_exchange_weak(T volatile *p, T *c, T v, int, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
    API T __tsan_atomic##bits##_compare_exchange_val(T volatile *p, T c, T v, int, int) { record((std::uintptr_t)p, sizeof(T), true, true); T o = *p; if (o == c) *p = v; return o; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
API void __tsan_atomic_thread_fence(int) {}
API void __tsan_atomic_signal_fence(int) {}

// ---- library calls that touch or recycle memory (the references of the instrumented object are renamed to these)
API void *race_memcpy(void *d, void const *s, std::size_t n) { record((std::uintptr_t)s, n, false, false); record((std::uintptr_t)d, n, true, false); return std::memcpy(d, s, n); }
API void *race_memmove(void *d, void const *s, std::size_t n) { record((std::uintptr_t)s, n, false, false); record((std::uintptr_t)d, n, true, false); return std::memmove(d, s, n); }
API void *race_memset(void *d, int c, std::size_t n) { record((std::uintptr_t)d, n, true, false); return std::memset(d, c, n); }
// memory released by one thread must not look shared when another one gets it: it is given back after the region
static void release(void *p) { if (cur >= 0 && nthreads > 1) deferred.push_back(Block{p}); else std::free(p); }
API void race_free(void *p) { release(p); }
API void race__ZdlPv(void *p) { release(p); }
API void race__ZdlPvm(void *p, std::size_t) { release(p); }
API void race__ZdaPv(void *p) { release(p); }
API void race__ZdaPvm(void *p, std::size_t) { release(p); }
API void race__ZdlPvSt11align_val_t(void *p, std::size_t) { release(p); }
API void race__ZdlPvmSt11align_val_t(void *p, std::size_t, std::size_t) { release(p); }
// initialisation of function-local statics is ordered by the language
API int __cxa_guard_acquire(void *);
API void __cxa_guard_release(void *);
API int race___cxa_guard_acquire(void *g) { int r = __cxa_guard_acquire(g); if (r && team()) threads[cur].hold = true; return r; }
API void race___cxa_guard_release(void *g) { if (team()) threads[cur].hold = false; __cxa_guard_release(g); }
