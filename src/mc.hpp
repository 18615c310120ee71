// Stateless model-checking engine: a scenario is a deterministic function of
// the answers given to mc::choose().  The engine enumerates *every* answer
// sequence (depth first, by re-execution), in parallel forked workers, with
// crash / hang / leak detection and replayable traces.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace mc {

struct violation
{
    std::string msg;
};

// thrown to abandon the current execution: nothing new below this point
struct prune
{
};

/** Non-deterministic choice in [0, n).  Every value is explored. */
int choose(int n);

/** Non-deterministic boolean. */
inline bool flip() { return choose(2) != 0; }

/** true when the execution has left the part already executed (and checked)
 *  by an earlier execution sharing the same choice prefix. */
bool fresh();

/** Record a distinct model state (for evidence); returns true when new. */
bool state(std::uint64_t fp);

/** Explicit-state pruning: call with a fingerprint of the *complete* state
 *  and the remaining depth.  Throws prune if that state was already explored
 *  with at least that much remaining depth. */
void visit(std::uint64_t fp, int remaining);

/** Count a checked transition (an operation of the code under test whose
 *  outcome was compared with the model). */
void transition(std::uint64_t n = 1);

/** Count an interesting, non-trivial case. */
void count(const char* name, std::uint64_t n = 1);

bool tracing();
void note(const std::string& s);

[[noreturn]] void fail(const std::string& msg);

/** Number of live heap allocations made through operator new. */
std::int64_t live_allocs();

/** Fail the n-th (1-based) operator new from now on with bad_alloc; 0 disarms.
 *  Returns the number of allocations seen since the last arm. */
void arm_alloc_fault(std::int64_t n);
std::int64_t allocs_since_arm();

/** Observe allocations (operator new / delete); the release hook returns true
 *  when it keeps the memory and frees it itself, later, with really_free(). */
using alloc_hook_t = void (*)(void* p, std::size_t n);
using free_hook_t = bool (*)(void* p);
void set_alloc_hooks(alloc_hook_t a, free_hook_t f);
void really_free(void* p);

/** Run fn in a process of its own, so that nothing it leaves behind (statics
 *  initialised at first use, caches) is seen by the next execution.  Choices
 *  made and violations found inside count as if made here. */
void isolate(void (*fn)());

/** integer parameter of the running scenario */
int param(const char* name);

struct param_def
{
    const char* name;
    int quick;
    int thorough;
    int san_quick;
    int san_thorough;
};

struct scenario_def
{
    const char* name;
    void (*fn)();
    std::vector<param_def> params;
    const char* what; // description of the enumerated space
};

void add(scenario_def d);

struct reg
{
    reg(const char* name, void (*fn)(), std::vector<param_def> p, const char* what)
    {
        add(scenario_def{name, fn, std::move(p), what});
    }
};

#define MC_SCENARIO(NAME, WHAT, ...) MC_SCENARIO_(NAME, WHAT, __VA_ARGS__)
#define MC_SCENARIO_(NAME, WHAT, ...)                                                                                  \
    static void NAME();                                                                                                \
    static mc::reg mc_reg_##NAME{#NAME, NAME, std::vector<mc::param_def>{__VA_ARGS__}, WHAT};                          \
    static void NAME()

#define MC_CHECK(COND, ...)                                                                                            \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(COND))                                                                                                   \
        {                                                                                                              \
            std::ostringstream mc_os_;                                                                                 \
            mc_os_ << #COND << ": " __VA_ARGS__;                                                                       \
            mc::fail(mc_os_.str());                                                                                    \
        }                                                                                                              \
    } while (false)

#define MC_NOTE(EXPR)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (mc::tracing())                                                                                             \
        {                                                                                                              \
            std::ostringstream mc_os_;                                                                                 \
            mc_os_ << EXPR;                                                                                            \
            mc::note(mc_os_.str());                                                                                    \
        }                                                                                                              \
    } while (false)

// ---- fingerprints ---------------------------------------------------------

struct fp
{
    std::uint64_t h = 0x9ae16a3b2f90404fULL;

    fp& add(std::uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 32;
        return *this;
    }
    fp& add(std::string_view s)
    {
        add(s.size());
        for (unsigned char c : s)
            add(c);
        return *this;
    }
    std::uint64_t get() const
    {
        std::uint64_t x = h;
        x ^= x >> 33;
        x *= 0xc4ceb9fe1a85ec53ULL;
        x ^= x >> 33;
        return x ? x : 1;
    }
};

// ---- instance counted payloads ---------------------------------------------

struct counters
{
    static inline std::int64_t live = 0;
};

} // namespace mc
