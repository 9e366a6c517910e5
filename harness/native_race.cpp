// Confirms a reported data race on the natively compiled code: a stand-in for the OpenMP runtime that runs the threads
// of a team one after the other (dividing the iterations as in the replayed counterexample), and for the runtime of
// -fsanitize=thread that records which memory each of them accesses.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);
}
namespace {
struct Acc { uintptr_t lo, hi; bool w, at; };
struct Range { uintptr_t lo, hi; };
int threads = 0, thread = -1, phase = 0, loop = 0, locked = 0;
bool busy = false;
uintptr_t stackTop = 0;
const int MAXA = 1 << 22, MAXR = 1 << 16;
struct Rec { Acc a; int t, ph; };
Rec* acc = nullptr;
int nacc = 0;
Range* own = nullptr;  // memory allocated within the region (never reused there)
int nown = 0;
std::map<int, std::vector<int64_t>>* splits = nullptr;
void record(uintptr_t a, size_t n, bool w, bool at = false)
{
    if (thread < 0 || busy || n == 0) return;
    if (a < stackTop && a > stackTop - (8u << 20)) return;
    for (int i = 0; i < nown; ++i)
        if (a >= own[i].lo && a < own[i].hi) return;
    if (nacc < MAXA) acc[nacc++] = {{a, a + n, w, at || locked > 0}, thread, phase};
}
void check()
{
    busy = true;
    std::map<std::pair<int, uintptr_t>, std::vector<Rec*>> byByte;
    bool found = false;
    for (int i = 0; i < nacc && !found; ++i)
        for (uintptr_t b = acc[i].a.lo; b < acc[i].a.hi; ++b) {
            auto& v = byByte[{acc[i].ph, b}];
            bool dup = false;
            for (auto r : v) {
                if (r->t == acc[i].t) {
                    dup = dup || (r->a.w == acc[i].a.w && r->a.at == acc[i].a.at);
                    continue;
                }
                if ((r->a.w || acc[i].a.w) && !(r->a.at && acc[i].a.at)) found = true;
            }
            if (!dup) v.push_back(acc + i);
            if (found) {
                printf("RACE threads %d and another access %zu bytes at the same address, at least one writing\n", acc[i].t, (size_t)(acc[i].a.hi - acc[i].a.lo));
                fflush(stdout);
                break;
            }
        }
    nacc = 0;
    nown = 0;
    busy = false;
}
void block(int64_t lo, int64_t up, int64_t& a, int64_t& b)
{
    busy = true;
    auto& s = (*splits)[loop++];
    if (s.empty()) {
        int64_t cur = lo;
        s.push_back(cur);
        for (int t = 1; t < threads; ++t) {
            if (up >= lo) cur = (int64_t)sym_u64("omp_split", cur, up + 1);
            s.push_back(cur);
        }
        s.push_back(up + 1 > cur ? up + 1 : cur);
    }
    int t = thread < 0 ? 0 : thread;
    a = thread < 0 ? lo : s[t];
    b = thread < 0 ? up : s[t + 1] - 1;
    if (a > b) { a = up + 1; b = up; }
    busy = false;
}
}
extern "C" {
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (thread >= 0 && !busy && nown < MAXR) own[nown++] = {(uintptr_t)p, (uintptr_t)p + n};
    return p;
}
void* calloc(size_t n, size_t m)
{
    void* p = __libc_calloc(n, m);
    if (thread >= 0 && !busy && nown < MAXR) own[nown++] = {(uintptr_t)p, (uintptr_t)p + n * m};
    return p;
}
void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    if (thread >= 0 && !busy && nown < MAXR) own[nown++] = {(uintptr_t)p, (uintptr_t)p + n};
    return p;
}
void free(void* p)
{
    if (thread >= 0 && !busy) return;  // not reused by another thread within the region
    __libc_free(p);
}
void sym_threads(uint64_t n) { threads = (int)n; }
int omp_get_thread_num(void) { return thread < 0 ? 0 : thread; }
int omp_get_num_threads(void) { return thread < 0 || threads < 1 ? 1 : threads; }
int omp_get_max_threads(void) { return threads < 1 ? 1 : threads; }
int omp_get_num_procs(void) { return threads < 1 ? 1 : threads; }
int omp_in_parallel(void) { return thread >= 0 && threads > 1; }
void omp_set_num_threads(int) {}
int __kmpc_global_thread_num(void*) { return thread < 0 ? 0 : thread; }
typedef void (*F)(int*, int*, ...);
__attribute__((noinline)) void __kmpc_fork_call(void*, int n, F f, ...)
{
    void* a[16] = {};
    va_list l;
    va_start(l, f);
    for (int i = 0; i < n && i < 16; ++i) a[i] = va_arg(l, void*);
    va_end(l);
    if (!acc) {
        acc = (Rec*)__libc_malloc(sizeof(Rec) * MAXA);
        own = (Range*)__libc_malloc(sizeof(Range) * MAXR);
    }
    if (!splits) splits = new std::map<int, std::vector<int64_t>>;
    splits->clear();
    int nt = threads < 1 ? 1 : threads, save = threads;
    threads = nt;
    for (int t = 0; t < nt; ++t) {
        thread = t;
        phase = loop = 0;
        int id = t;
        stackTop = (uintptr_t)&id + 16;
        f(&id, &id, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
    }
    thread = -1;
    check();
    threads = save;
}
#define INIT(name, T, S)                                                                                \
    void name(void*, int, int, int* last, T* lower, T* upper, S* stride, S, S)                          \
    {                                                                                                   \
        int64_t lo = (int64_t)*lower, up = (int64_t)*upper, a, b;                                       \
        block(lo, up, a, b);                                                                            \
        *lower = (T)a;                                                                                  \
        *upper = (T)b;                                                                                  \
        *stride = (S)(up - lo + 1);                                                                     \
        *last = b == up;                                                                                \
    }
INIT(__kmpc_for_static_init_4, int32_t, int32_t)
INIT(__kmpc_for_static_init_4u, uint32_t, int32_t)
INIT(__kmpc_for_static_init_8, int64_t, int64_t)
INIT(__kmpc_for_static_init_8u, uint64_t, int64_t)
void __kmpc_for_static_fini(void*, int) {}
static int64_t dynA, dynB, dynUp;
#define DYN(suffix, T, S)                                                                   \
    void __kmpc_dispatch_init_##suffix(void*, int, int, T lo, T up, S, S)                   \
    {                                                                                       \
        block((int64_t)lo, (int64_t)up, dynA, dynB);                                        \
        dynUp = (int64_t)up;                                                                \
    }                                                                                       \
    int __kmpc_dispatch_next_##suffix(void*, int, int* last, T* lower, T* upper, S* stride) \
    {                                                                                       \
        if (dynA > dynB) return 0;                                                          \
        *last = dynB == dynUp;                                                              \
        *lower = (T)dynA;                                                                   \
        *upper = (T)dynB;                                                                   \
        *stride = 1;                                                                        \
        dynA = 1;                                                                           \
        dynB = 0;                                                                           \
        return 1;                                                                           \
    }
DYN(4, int32_t, int32_t)
DYN(4u, uint32_t, int32_t)
DYN(8, int64_t, int64_t)
DYN(8u, uint64_t, int64_t)
void __kmpc_barrier(void*, int) { ++phase; }
void __kmpc_flush(void*) {}
void __kmpc_push_num_threads(void*, int, int) {}
void __kmpc_critical(void*, int, void*) { ++locked; }
void __kmpc_critical_with_hint(void*, int, void*, uint32_t) { ++locked; }
void __kmpc_end_critical(void*, int, void*) { --locked; }
int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { ++locked; return 1; }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void*) { ++locked; return 1; }
void __kmpc_end_reduce(void*, int, void*) { --locked; }
void __kmpc_end_reduce_nowait(void*, int, void*) { --locked; }
int __kmpc_single(void*, int) { return thread <= 0; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return thread <= 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return thread <= 0; }
void __kmpc_end_masked(void*, int) {}
// instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                               \
    void __tsan_read##n(void* p) { record((uintptr_t)p, n, false); }                        \
    void __tsan_write##n(void* p) { record((uintptr_t)p, n, true); }                        \
    void __tsan_unaligned_read##n(void* p) { record((uintptr_t)p, n, false); }              \
    void __tsan_unaligned_write##n(void* p) { record((uintptr_t)p, n, true); }              \
    void __tsan_read_write##n(void* p) { record((uintptr_t)p, n, true); }                   \
    void __tsan_unaligned_read_write##n(void* p) { record((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { record((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { record((uintptr_t)p, n, true); }
void __tsan_vptr_update(void** p, void*) { record((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { record((uintptr_t)p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    record((uintptr_t)s, n, false);
    record((uintptr_t)d, n, true);
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n)
{
    record((uintptr_t)d, n, true);
    return memset(d, c, n);
}
#define ATOMIC(b, T)                                                                                                   \
    T __tsan_atomic##b##_load(const volatile T* p, int) { record((uintptr_t)p, sizeof(T), false, true); return *p; }   \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); *p = v; }    \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = v; return o; }       \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o + v; return o; }  \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o - v; return o; }  \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o & v; return o; }  \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o | v; return o; }   \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { record((uintptr_t)p, sizeof(T), true, true); T o = *p; *p = o ^ v; return o; }  \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int)                                       \
    {                                                                                                                  \
        record((uintptr_t)p, sizeof(T), true, true);                                                                   \
        T o = *p;                                                                                                      \
        if (o == e) *p = v;                                                                                            \
        return o;                                                                                                      \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
