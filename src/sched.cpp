#include "sched.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#include <unordered_map>
#include <utility>

#include <cxxabi.h>

namespace {

constexpr int max_threads = 3;
constexpr std::size_t stack_size = 256 * 1024;

enum kind_t
{
    plain_read,
    plain_write,
    atomic_read,
    atomic_write,
    n_kinds
};

const char* kind_name[] = {"read", "write", "atomic read", "atomic write"};

struct vclock
{
    std::uint16_t c[max_threads] = {};
    void join(const vclock& o)
    {
        for (int i = 0; i < max_threads; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct fiber
{
    ucontext_t ctx;
    char* stack = nullptr;
    bool started = false, done = false;
    const void* waiting = nullptr; // for a guard or lock
    vclock vc, pending, fence;
    bool has_fence = false;
    unsigned char eh[2 * sizeof(void*)] = {};
    int guards = 0;
};

/** what the threads last did to the bytes of a word */
struct cell
{
    std::uintptr_t word = 0;
    bool freed = false;
    int freed_by = 0;
    std::uint16_t c[n_kinds][max_threads][8];
    const void* pc[n_kinds][max_threads];
};

constexpr std::size_t table_bits = 17;
cell* g_table = nullptr;
std::size_t g_used = 0;
std::uint32_t g_touched[std::size_t(1) << table_bits];
std::uint32_t g_index[std::size_t(1) << table_bits]; // number of the cell, from 1

fiber g_fiber[max_threads];
int g_n = 0;
int g_cur = -1;        // the thread running, -1 for none
bool g_inside = false; // in here
bool g_abort = false;
bool g_pass = false;   // the exception in g_exc is to be thrown on
std::exception_ptr g_exc;
std::string g_msg;
int g_budget = 0;
const void* g_last_pc = nullptr;
ucontext_t g_main;
unsigned char g_main_eh[2 * sizeof(void*)];
const std::vector<std::function<void()>>* g_functions = nullptr;
sched::stats_t g_stats;
int g_alive = 0;
int g_static_depth = 0;
std::int64_t g_static_allocs = 0;

std::unordered_map<std::uintptr_t, vclock>* g_sync = nullptr;
std::unordered_map<void*, int>* g_freed = nullptr; // kept until the end

/** What a thread has allocated is its own for as long as it has written to
 *  nothing that others may see by an atomic operation or a release of a lock:
 *  another that gets to know of it earlier has raced for it, and that is found
 *  without another schedule.  Atomic operations on it commute with whatever the
 *  others do, and no other thread need go on before them. */
struct ownership
{
    std::uintptr_t end;
    int owner;
    int epoch;
};
std::map<std::uintptr_t, ownership>* g_owned = nullptr;
int g_epoch[max_threads];

struct inside
{
    bool old = g_inside;
    inside() { g_inside = true; }
    ~inside() { g_inside = old; }
};

bool idle() { return g_cur < 0 || g_inside; }

void save_eh(unsigned char* to) { std::memcpy(to, __cxxabiv1::__cxa_get_globals(), 2 * sizeof(void*)); }
void load_eh(const unsigned char* from) { std::memcpy(static_cast<void*>(__cxxabiv1::__cxa_get_globals()), from, 2 * sizeof(void*)); }

[[noreturn]] void leave()
{
    // never to come back: the other threads stay where they are
    g_abort = true;
    g_cur = -1;
    setcontext(&g_main);
    std::abort();
}

[[noreturn]] void report(const std::string& msg)
{
    g_msg = msg;
    leave();
}

std::string where(const void* pc)
{
    Dl_info i{};
    if (!pc || !dladdr(pc, &i))
        return "?";
    std::string s;
    if (i.dli_sname)
    {
        int st = 0;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        s = d && !st ? d : i.dli_sname;
        if (s.size() > 200)
            s.resize(200);
        std::free(d);
    }
    char b[40];
    std::snprintf(b, sizeof b, " (+0x%zx)", std::size_t(static_cast<const char*>(pc) - static_cast<const char*>(i.dli_fbase)));
    return s + b;
}

/** the cell of a word; null when there is none and none is to be made */
cell* find(std::uintptr_t word, bool make = true)
{
    std::size_t mask = (std::size_t(1) << table_bits) - 1;
    std::size_t i = (word >> 3) * 0x9e3779b97f4a7c15ull >> (64 - table_bits);
    for (;;)
    {
        if (!g_index[i])
            break;
        cell& c = g_table[g_index[i] - 1];
        if (c.word == word)
            return &c;
        i = (i + 1) & mask;
    }
    if (!make)
        return nullptr;
    if (g_used > mask / 2)
    {
        std::fprintf(stderr, "sched: too many addresses\n");
        std::abort();
    }
    cell& c = g_table[g_used];
    std::memset(static_cast<void*>(&c), 0, sizeof c);
    c.word = word;
    g_touched[g_used++] = std::uint32_t(i);
    g_index[i] = std::uint32_t(g_used);
    return &c;
}

/** the data of shared libraries: what they do with it (counting references to
 *  locales, say) is theirs, and orders nothing that their users rely on */
struct library
{
    std::uintptr_t lo, hi;
};
library g_libs[64];
int g_n_libs = 0;

int add_library(dl_phdr_info* i, std::size_t, void*)
{
    if (i->dlpi_name && *i->dlpi_name)
        for (int k = 0; k < i->dlpi_phnum && g_n_libs < 64; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W)
            {
                std::uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                g_libs[g_n_libs++] = {lo, lo + i->dlpi_phdr[k].p_memsz};
            }
    return 0;
}

bool foreign(std::uintptr_t a)
{
    if (!g_n_libs)
        dl_iterate_phdr(add_library, nullptr);
    for (int i = 0; i < g_n_libs; ++i)
        if (a >= g_libs[i].lo && a < g_libs[i].hi)
            return true;
    return false;
}

bool own_heap(std::uintptr_t a)
{
    auto it = g_owned->upper_bound(a);
    if (it == g_owned->begin())
        return false;
    const ownership& o = (--it)->second;
    return a < o.end && o.owner == g_cur && o.epoch == g_epoch[g_cur];
}

bool own_stack(std::uintptr_t a)
{
    std::uintptr_t lo = reinterpret_cast<std::uintptr_t>(g_fiber[g_cur].stack);
    return a >= lo && a < lo + stack_size;
}

constexpr bool conflict(int a, int b)
{
    bool w = a == plain_write || a == atomic_write || b == plain_write || b == atomic_write;
    bool p = a == plain_read || a == plain_write || b == plain_read || b == plain_write;
    return w && p;
}

void access(std::uintptr_t a, std::size_t n, kind_t k, const void* pc, bool freeing = false)
{
    if (own_stack(a) || foreign(a))
        return;
    ++g_stats.accesses;
    const int t = g_cur;
    const vclock& vc = g_fiber[t].vc;
    for (std::uintptr_t end = a + n; a < end;)
    {
        std::uintptr_t word = a & ~std::uintptr_t(7);
        cell& c = *find(word);
        if (c.freed)
            report(std::string(kind_name[k]) + " of freed memory by thread " + std::to_string(t) + " in " + where(pc) + ", freed by thread " +
                   std::to_string(c.freed_by) + " in " + where(c.pc[plain_write][c.freed_by]));
        for (; a < end && (a & ~std::uintptr_t(7)) == word; ++a)
        {
            int b = a & 7;
            for (int u = 0; u < g_n; ++u)
            {
                if (u == t)
                    continue;
                for (int o = 0; o < n_kinds; ++o)
                    if (conflict(k, o) && c.c[o][u][b] > vc.c[u])
                        report(std::string("data race: ") + (freeing ? "release" : kind_name[k]) + " by thread " + std::to_string(t) + " in " + where(pc) +
                               " and " + kind_name[o] + " by thread " + std::to_string(u) + " in " + where(c.pc[o][u]));
            }
            c.c[k][t][b] = vc.c[t];
        }
        c.pc[k][t] = pc;
        if (freeing)
        {
            c.freed = true;
            c.freed_by = t;
        }
    }
}

void enter(unsigned i);

bool runnable(int i) { return !g_fiber[i].done && !g_fiber[i].waiting; }

void resume(int next)
{
    // from the thread g_cur, which goes on later, to another
    int self = g_cur;
    ++g_stats.switches;
    save_eh(g_fiber[self].eh);
    g_cur = next;
    fiber& f = g_fiber[next];
    load_eh(f.eh);
    bool in = g_inside;
    g_inside = false;
    f.started = true;
    swapcontext(&g_fiber[self].ctx, &f.ctx);
    g_inside = in;
    // back again: whoever resumed this one has loaded what belongs to it
}

int pick(int n)
{
    try
    {
        return mc::choose(n);
    }
    catch (...)
    {
        g_exc = std::current_exception();
        g_pass = true;
    }
    leave();
}

void reschedule();

/** another thread may go on here */
void point()
{
    inside in;
    if (!g_budget)
        return;
    int other[max_threads], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (i != g_cur && runnable(i))
            other[n++] = i;
    if (!n)
        return;
    int c = pick(n + 1);
    if (!c)
        return;
    if (g_budget > 0)
        --g_budget;
    resume(other[c - 1]);
}

/** this thread cannot go on */
void block(const void* what)
{
    inside in;
    g_fiber[g_cur].waiting = what;
    reschedule();
}

void wake(const void* what)
{
    for (int i = 0; i < g_n; ++i)
        if (g_fiber[i].waiting == what)
            g_fiber[i].waiting = nullptr;
}

void reschedule()
{
    int other[max_threads], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (i != g_cur && runnable(i))
            other[n++] = i;
    if (!n)
    {
        for (int i = 0; i < g_n; ++i)
            if (!g_fiber[i].done && i != g_cur)
                report("deadlock");
        if (!g_fiber[g_cur].done)
            report("deadlock");
        // all are done
        g_cur = -1;
        setcontext(&g_main);
        std::abort();
    }
    resume(other[n > 1 ? pick(n) : 0]);
}

void enter(unsigned i)
{
    try
    {
        (*g_functions)[i]();
    }
    catch (...)
    {
        inside in;
        g_exc = std::current_exception();
        g_pass = true;
        leave();
    }
    g_inside = true;
    g_fiber[i].done = true;
    reschedule();
}

// ---- synchronisation ----

bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void tick()
{
    if (++g_fiber[g_cur].vc.c[g_cur] == 0xffff)
        report("too many synchronisations");
}

void sync_load(std::uintptr_t a, int mo)
{
    auto it = g_sync->find(a);
    if (it == g_sync->end())
        return;
    (acquires(mo) ? g_fiber[g_cur].vc : g_fiber[g_cur].pending).join(it->second);
    g_fiber[g_cur].pending.join(it->second);
}

void sync_store(std::uintptr_t a, int mo, bool rmw)
{
    vclock& s = (*g_sync)[a];
    if (!rmw)
        s = vclock();
    fiber& f = g_fiber[g_cur];
    if (releases(mo))
        s.join(f.vc);
    else if (f.has_fence)
        s.join(f.fence);
    tick();
}

void acquire(const void* p)
{
    sync_load(reinterpret_cast<std::uintptr_t>(p), __ATOMIC_ACQUIRE);
}

void release(const void* p)
{
    ++g_epoch[g_cur];
    sync_store(reinterpret_cast<std::uintptr_t>(p), __ATOMIC_RELEASE, true);
}

// ---- memory ----

void on_alloc(void* p, std::size_t)
{
    if (g_static_depth && !g_inside)
        ++g_static_allocs;
    if (idle())
        return;
    inside in;
    auto b = reinterpret_cast<std::uintptr_t>(p);
    (*g_owned)[b] = {b + malloc_usable_size(p), g_cur, g_epoch[g_cur]};
    // Released addresses are not used again while the threads run, but for
    // those of exceptions and others that come from malloc() directly.
    auto a = reinterpret_cast<std::uintptr_t>(p);
    std::size_t n = malloc_usable_size(p);
    for (std::uintptr_t w = a & ~std::uintptr_t(7); w < a + n; w += 8)
        if (cell* c = find(w, false))
        {
            std::uintptr_t word = c->word;
            std::memset(static_cast<void*>(c), 0, sizeof *c);
            c->word = word;
        }
}

bool on_free(void* p)
{
    if (g_static_depth && !g_inside)
        --g_static_allocs;
    if (idle())
        return false;
    inside in;
    const void* pc = g_last_pc; // near enough
    if (g_freed->count(p))
        report("freed twice, by thread " + std::to_string((*g_freed)[p]) + " and thread " + std::to_string(g_cur));
    access(reinterpret_cast<std::uintptr_t>(p), malloc_usable_size(p), plain_write, pc, true);
    (*g_freed)[p] = g_cur;
    return true;
}

void range(const void* p, std::size_t n, kind_t k, const void* pc)
{
    if (idle() || !n)
        return;
    inside in;
    g_last_pc = pc;
    access(reinterpret_cast<std::uintptr_t>(p), n, k, pc);
}

} // namespace

namespace sched {

void alive(int delta) { g_alive += delta; }
int alive() { return g_alive; }

void init() { mc::set_alloc_hooks(on_alloc, on_free); }
std::int64_t static_allocs() { return g_static_allocs; }
stats_t stats() { return g_stats; }

void run(const std::vector<std::function<void()>>& threads, int preemptions)
{
    if (threads.size() > max_threads)
        std::abort();
    if (!g_table)
    {
        g_table = static_cast<cell*>(
            mmap(nullptr, sizeof(cell) << table_bits, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for (auto& f : g_fiber)
            f.stack = static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    else
        for (std::size_t i = 0; i < g_used; ++i)
            g_index[g_touched[i]] = 0;
    g_used = 0;
    std::unordered_map<std::uintptr_t, vclock> sync;
    std::unordered_map<void*, int> freed;
    g_sync = &sync;
    g_freed = &freed;
    std::map<std::uintptr_t, ownership> owned;
    g_owned = &owned;
    std::memset(g_epoch, 0, sizeof g_epoch);
    g_abort = g_pass = false;
    g_budget = preemptions;
    g_functions = &threads;
    g_n = int(threads.size());
    g_stats = stats_t();
    __libc_single_threaded = false;
    for (int i = 0; i < g_n; ++i)
    {
        fiber& f = g_fiber[i];
        f.started = f.done = false;
        f.waiting = nullptr;
        f.vc = f.pending = f.fence = vclock();
        f.has_fence = false;
        f.vc.c[i] = 1;
        std::memset(f.eh, 0, sizeof f.eh);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = stack_size;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, reinterpret_cast<void (*)()>(enter), 1, unsigned(i));
    }
    init();
    int first = mc::choose(g_n);
    save_eh(g_main_eh);
    volatile bool back = false;
    getcontext(&g_main);
    if (!back)
    {
        back = true;
        g_cur = first;
        g_inside = false;
        load_eh(g_fiber[first].eh);
        setcontext(&g_fiber[first].ctx);
    }
    g_cur = -1;
    g_inside = false;
    load_eh(g_main_eh);
    for (auto& p : freed)
        mc::really_free(p.first);
    g_sync = nullptr;
    g_freed = nullptr;
    g_owned = nullptr;
    if (g_abort)
    {
        if (g_pass)
            std::rethrow_exception(std::exchange(g_exc, nullptr));
        mc::fail(g_msg);
    }
}

} // namespace sched

// ---- what the compiler calls ----

#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

#define ACCESS(N)                                                                      \
    void __tsan_read##N(void* p) { range(p, N, plain_read, PC); }                      \
    void __tsan_write##N(void* p) { range(p, N, plain_write, PC); }                    \
    void __tsan_unaligned_read##N(void* p) { range(p, N, plain_read, PC); }            \
    void __tsan_unaligned_write##N(void* p) { range(p, N, plain_write, PC); }          \
    void __tsan_volatile_read##N(void* p) { range(p, N, plain_read, PC); }             \
    void __tsan_volatile_write##N(void* p) { range(p, N, plain_write, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

void __tsan_read_range(void* p, std::size_t n) { range(p, n, plain_read, PC); }
void __tsan_write_range(void* p, std::size_t n) { range(p, n, plain_write, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        range(p, sizeof(void*), plain_write, PC);
}
void __tsan_vptr_read(void** p) { range(p, sizeof(void*), plain_read, PC); }

void __tsan_atomic_thread_fence(int mo)
{
    if (idle())
        return;
    inside in;
    fiber& f = g_fiber[g_cur];
    if (acquires(mo))
        f.vc.join(f.pending);
    if (releases(mo))
    {
        f.fence = f.vc;
        f.has_fence = true;
        tick();
    }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

extern "C" char __data_start[], _end[];

namespace {

/** The flag of a function's static variable, looked at before __cxa_guard_acquire()
 *  looks at it again: when this is done makes no difference. */
bool is_guard(const volatile void* p, std::size_t n, kind_t k)
{
    auto c = static_cast<const volatile char*>(p);
    return n == 1 && k == atomic_read && c >= __data_start && c < _end;
}

void atomic_point(std::uintptr_t a, kind_t k)
{
    {
        inside in;
        if (own_stack(a) || own_heap(a))
            return;
        if (k == atomic_write)
            ++g_epoch[g_cur];
    }
    point();
}

template<typename F>
auto atomic_op(volatile void* p, std::size_t n, kind_t k, int mo, const void* pc, F f)
{
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if (idle() || own_stack(a) || foreign(a))
        return f();
    if (!is_guard(p, n, k))
        atomic_point(a, k);
    inside in;
    ++g_stats.atomics;
    g_last_pc = pc;
    access(a, n, k, pc);
    sync_load(a, mo);
    auto r = f();
    if (k == atomic_write)
        sync_store(a, mo, true);
    return r;
}

template<typename T>
T atomic_cas(volatile T* p, T expected, T v, int mo, int fmo, const void* pc)
{
    if (idle())
    {
        T old = *p;
        if (old == expected)
            *p = v;
        return old;
    }
    auto a = reinterpret_cast<std::uintptr_t>(p);
    atomic_point(a, atomic_write);
    inside in;
    ++g_stats.atomics;
    T old = *p;
    bool ok = old == expected;
    access(a, sizeof(T), ok ? atomic_write : atomic_read, pc);
    if (!own_stack(a))
        sync_load(a, ok ? mo : fmo);
    if (ok)
    {
        *p = v;
        if (!own_stack(a))
            sync_store(a, mo, true);
    }
    return old;
}

} // namespace

#define ATOMICS(BITS, T)                                                                                                          \
    extern "C" {                                                                                                                  \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                                                                     \
    {                                                                                                                             \
        return atomic_op(const_cast<volatile T*>(p), sizeof(T), atomic_read, mo, PC, [&] { return T(*p); });                      \
    }                                                                                                                             \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)                                                                  \
    {                                                                                                                             \
        if (!idle())                                                                                                              \
        {                                                                                                                         \
            auto a = reinterpret_cast<std::uintptr_t>(p);                                                                         \
            atomic_point(a, atomic_write);                                                                                        \
            inside in;                                                                                                            \
            ++g_stats.atomics;                                                                                                    \
            access(a, sizeof(T), atomic_write, PC);                                                                               \
            if (!own_stack(a))                                                                                                    \
                sync_store(a, mo, false);                                                                                         \
        }                                                                                                                         \
        *p = v;                                                                                                                   \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo)                                                                  \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = v; return o; });                                \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo)                                                                 \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(o + v); return o; });                         \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo)                                                                 \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(o - v); return o; });                         \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo)                                                                 \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(o & v); return o; });                         \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo)                                                                  \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(o | v); return o; });                         \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo)                                                                 \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(o ^ v); return o; });                         \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo)                                                                \
    {                                                                                                                             \
        return atomic_op(p, sizeof(T), atomic_write, mo, PC, [&] { T o = *p; *p = T(~(o & v)); return o; });                      \
    }                                                                                                                             \
    bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)                                 \
    {                                                                                                                             \
        T o = atomic_cas<T>(p, *e, v, mo, fmo, PC);                                                                               \
        bool ok = o == *e;                                                                                                        \
        *e = o;                                                                                                                   \
        return ok;                                                                                                                \
    }                                                                                                                             \
    bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                                   \
    {                                                                                                                             \
        T o = atomic_cas<T>(p, *e, v, mo, fmo, PC);                                                                               \
        bool ok = o == *e;                                                                                                        \
        *e = o;                                                                                                                   \
        return ok;                                                                                                                \
    }                                                                                                                             \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                        \
    {                                                                                                                             \
        return atomic_cas<T>(p, e, v, mo, fmo, PC);                                                                               \
    }                                                                                                                             \
    }

ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)

// ---- what is wrapped at link time ----

extern "C" {

int __real___cxa_guard_acquire(std::uint8_t* g);
void __real___cxa_guard_release(std::uint8_t* g);
void __real___cxa_guard_abort(std::uint8_t* g);

int __wrap___cxa_guard_acquire(std::uint8_t* g)
{
    if (idle())
    {
        int r = __real___cxa_guard_acquire(g);
        if (r)
            ++g_static_depth;
        return r;
    }
    point();
    for (;;)
    {
        inside in;
        if (g[0])
        {
            acquire(g);
            return 0;
        }
        if (!g[1])
            break;
        block(g);
    }
    g[1] = 1;
    ++g_static_depth;
    return 1;
}

void __wrap___cxa_guard_release(std::uint8_t* g)
{
    --g_static_depth;
    if (idle())
    {
        __real___cxa_guard_release(g);
        return;
    }
    inside in;
    g[0] = 1;
    g[1] = 0;
    release(g);
    wake(g);
}

void __wrap___cxa_guard_abort(std::uint8_t* g)
{
    --g_static_depth;
    if (idle())
    {
        __real___cxa_guard_abort(g);
        return;
    }
    inside in;
    g[1] = 0;
    wake(g);
}

int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);

int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (idle())
        return __real_pthread_mutex_trylock(m);
    point();
    inside in;
    int r = __real_pthread_mutex_trylock(m);
    if (!r)
        acquire(m);
    return r;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (idle())
        return __real_pthread_mutex_lock(m);
    point();
    inside in;
    while (__real_pthread_mutex_trylock(m))
        block(m);
    acquire(m);
    return 0;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (idle())
        return __real_pthread_mutex_unlock(m);
    inside in;
    release(m);
    int r = __real_pthread_mutex_unlock(m);
    wake(m);
    return r;
}

void* __real_memcpy(void* d, const void* s, std::size_t n);
void* __real_memmove(void* d, const void* s, std::size_t n);
void* __real_memset(void* d, int c, std::size_t n);
int __real_memcmp(const void* a, const void* b, std::size_t n);
void* __real_memchr(const void* a, int c, std::size_t n);
std::size_t __real_strlen(const char* s);

void* __wrap_memcpy(void* d, const void* s, std::size_t n)
{
    range(s, n, plain_read, PC);
    range(d, n, plain_write, PC);
    return __real_memcpy(d, s, n);
}

void* __wrap_memmove(void* d, const void* s, std::size_t n)
{
    range(s, n, plain_read, PC);
    range(d, n, plain_write, PC);
    return __real_memmove(d, s, n);
}

void* __wrap_memset(void* d, int c, std::size_t n)
{
    range(d, n, plain_write, PC);
    return __real_memset(d, c, n);
}

int __wrap_memcmp(const void* a, const void* b, std::size_t n)
{
    range(a, n, plain_read, PC);
    range(b, n, plain_read, PC);
    return __real_memcmp(a, b, n);
}

void* __wrap_memchr(const void* a, int c, std::size_t n)
{
    range(a, n, plain_read, PC);
    return __real_memchr(a, c, n);
}

std::size_t __wrap_strlen(const char* s)
{
    std::size_t n = __real_strlen(s);
    range(s, n + 1, plain_read, PC);
    return n;
}

} // extern "C"
