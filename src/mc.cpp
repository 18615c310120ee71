#include "mc.hpp"

#include <atomic>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <new>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ---- allocation accounting -------------------------------------------------

namespace {

std::atomic<std::int64_t> g_live{0};
std::atomic<std::int64_t> g_arm{0};
std::atomic<std::int64_t> g_seen{0};
mc::alloc_hook_t g_alloc_hook = nullptr;
mc::free_hook_t g_free_hook = nullptr;

void* do_new(std::size_t n)
{
    if (g_arm.load(std::memory_order_relaxed) > 0)
    {
        std::int64_t k = g_seen.fetch_add(1, std::memory_order_relaxed) + 1;
        if (k == g_arm.load(std::memory_order_relaxed))
        {
            g_arm.store(-1, std::memory_order_relaxed);
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    g_live.fetch_add(1, std::memory_order_relaxed);
    if (g_alloc_hook)
        g_alloc_hook(p, n);
    return p;
}

void do_delete(void* p) noexcept
{
    if (!p)
        return;
    g_live.fetch_sub(1, std::memory_order_relaxed);
    if (g_free_hook && g_free_hook(p))
        return;
    std::free(p);
}

} // namespace

void* operator new(std::size_t n) { return do_new(n); }
void* operator new[](std::size_t n) { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { do_delete(p); }

namespace mc {

std::int64_t live_allocs() { return g_live.load(); }

void arm_alloc_fault(std::int64_t n)
{
    g_seen = 0;
    g_arm = n;
}

std::int64_t allocs_since_arm() { return g_seen.load(); }

void set_alloc_hooks(alloc_hook_t a, free_hook_t f)
{
    g_alloc_hook = a;
    g_free_hook = f;
}

void really_free(void* p) { std::free(p); }

namespace {

constexpr int max_trace = 4096;
constexpr int max_workers = 64;
constexpr int max_samples = 4;
constexpr int max_counters = 24;
constexpr int max_known = 64;

struct trace_t
{
    int n = 0;
    std::uint16_t c[max_trace];
};

struct worker_shm
{
    std::atomic<std::uint64_t> execs;
    std::atomic<std::uint64_t> transitions;
    std::atomic<std::uint64_t> pruned;
    std::atomic<int> status; // 0 running, 1 done, 2 violation, 3 capped, 4 engine error
    std::atomic<int> maxlen;
    trace_t cur;
    trace_t samples[max_samples];
    int n_samples;
    char msg[8192];
    std::uint64_t counts[max_counters];
    std::uint64_t known_hits[max_known];
    trace_t known_trace[max_known];
};

struct shm_t
{
    std::atomic<int> stop;
    std::atomic<std::uint64_t> states;
    std::atomic<std::uint64_t> table_full;
    std::atomic<int> n_counters;
    char counter_names[max_counters][48];
    worker_shm w[max_workers];
};

shm_t* g_shm = nullptr;
std::atomic<std::uint8_t>* g_tickets = nullptr;
std::uint64_t g_n_tickets = 1ull << 22;
std::atomic<std::uint64_t>* g_states = nullptr; // distinct states
std::atomic<std::uint64_t>* g_visits = nullptr; // visited with remaining depth
std::uint64_t g_table_size = 1ull << 24;

struct entry
{
    std::uint16_t chosen;
    std::uint16_t n;
};

struct runtime
{
    entry stack[max_trace];
    int depth = 0;    // valid entries in stack
    int pos = 0;      // consumed choices
    int first_new = 0;
    int split = 3;
    int wid = 0;
    int nworkers = 1;
    std::uint64_t ticket = 0;
    std::uint64_t trans = 0; // of this execution
    bool claimed_any = false;
    bool replay = false;
    bool trace = false;
    bool fixed = false; // replaying a fixed trace
    std::string text;
    worker_shm* w = nullptr;
};

runtime* R = nullptr;
std::map<std::string, int> g_params;
std::vector<std::pair<std::string, std::string>> g_known; // id, substring of message

std::vector<scenario_def>& scenarios()
{
    static std::vector<scenario_def> v;
    return v;
}

} // namespace

void add(scenario_def d) { scenarios().push_back(std::move(d)); }

int param(const char* name)
{
    auto it = g_params.find(name);
    if (it == g_params.end())
    {
        std::fprintf(stderr, "unknown param %s\n", name);
        std::abort();
    }
    return it->second;
}

struct engine_error
{
    std::string msg;
};

int choose(int n)
{
    if (n <= 0)
        throw engine_error{"choose(<=0)"};

    runtime& r = *R;
    int c;
    if (r.pos < r.depth)
    {
        c = r.stack[r.pos].chosen;
        if (r.stack[r.pos].n != n && !r.fixed)
            throw engine_error{"non-deterministic scenario"};
        if (r.fixed && c >= n)
            throw engine_error{"replay choice out of range"};
    }
    else
    {
        if (r.fixed)
            c = 0;
        else
        {
            if (r.depth >= max_trace)
                throw engine_error{"trace too long"};
            r.stack[r.depth].chosen = 0;
            r.stack[r.depth].n = static_cast<std::uint16_t>(n);
            ++r.depth;
            c = 0;
        }
    }
    if (r.w)
    {
        r.w->cur.c[r.pos] = static_cast<std::uint16_t>(c);
        r.w->cur.n = r.pos + 1;
    }
    ++r.pos;

    if (!r.fixed && r.nworkers > 1 && r.pos == r.split && r.pos - 1 >= r.first_new)
    {
        // a new prefix: claim it, or leave it to the worker that has it
        std::uint64_t t = r.ticket++;
        bool mine;
        if (t < g_n_tickets)
            mine = g_tickets[t].exchange(1) == 0;
        else
            mine = static_cast<int>(t % r.nworkers) == r.wid;
        if (!mine)
            throw prune{};
    }
    return c;
}

bool fresh() { return R->fixed || R->pos - 1 >= R->first_new || R->pos == 0; }

bool tracing() { return R->trace; }

static char* g_note_shm = nullptr; // survives a crash of the replaying child
static constexpr std::size_t note_shm_size = 1 << 16;

void note(const std::string& s)
{
    if (R->trace)
    {
        if (g_note_shm)
        {
            std::size_t len = std::strlen(g_note_shm);
            if (len + s.size() + 2 < note_shm_size)
            {
                std::memcpy(g_note_shm + len, s.data(), s.size());
                g_note_shm[len + s.size()] = '\n';
            }
        }
        R->text += s;
        R->text += '\n';
    }
}

void fail(const std::string& msg) { throw violation{msg}; }

namespace {

bool table_insert(std::atomic<std::uint64_t>* tab, std::uint64_t key)
{
    std::uint64_t i = key & (g_table_size - 1);
    for (int probe = 0; probe < 512; ++probe)
    {
        std::uint64_t cur = tab[i].load(std::memory_order_relaxed);
        if (cur == key)
            return false;
        if (cur == 0)
        {
            if (tab[i].compare_exchange_strong(cur, key))
                return true;
            if (cur == key)
                return false;
        }
        i = (i + 1) & (g_table_size - 1);
    }
    g_shm->table_full.fetch_add(1);
    return true;
}

} // namespace

bool state(std::uint64_t key)
{
    if (R->fixed)
        return false;
    if (table_insert(g_states, key ? key : 1))
    {
        g_shm->states.fetch_add(1);
        return true;
    }
    return false;
}

void visit(std::uint64_t f, int remaining)
{
    state(f);
    if (R->fixed || !fresh())
        return;
    // The path that leads to this state must go on exploring it when it is
    // re-executed: only look the state up when the last choice is new.
    if (remaining < 0)
        remaining = 0;
    bool can_prune = R->nworkers == 1 || R->pos > R->split;
    std::uint64_t key = f & ~0xffull;
    if (!key)
        key = 0x100;
    std::uint64_t i = (f >> 8) & (g_table_size - 1);
    std::uint64_t rem = static_cast<std::uint64_t>(std::min(remaining, 254)) + 1;
    for (int probe = 0; probe < 512; ++probe)
    {
        std::uint64_t cur = g_visits[i].load();
        if (cur == 0)
        {
            if (g_visits[i].compare_exchange_strong(cur, key | rem))
                return;
        }
        if ((cur & ~0xffull) == key)
        {
            for (;;)
            {
                if ((cur & 0xff) >= rem)
                {
                    if (can_prune)
                    {
                        R->w->pruned.fetch_add(1, std::memory_order_relaxed);
                        throw prune{};
                    }
                    return;
                }
                if (g_visits[i].compare_exchange_strong(cur, key | rem))
                    return;
            }
        }
        i = (i + 1) & (g_table_size - 1);
    }
    g_shm->table_full.fetch_add(1);
}

void transition(std::uint64_t n)
{
    // the re-executed prefix was counted when it was new
    if (R->w && fresh())
        R->trans += n;
}

void count(const char* name, std::uint64_t n)
{
    if (!R->w || R->fixed)
        return;
    int nc = g_shm->n_counters.load();
    for (int i = 0; i < nc; ++i)
        if (!std::strcmp(g_shm->counter_names[i], name))
        {
            R->w->counts[i] += n;
            return;
        }
    // racy registration is tolerated: workers register under a spin lock
    static std::atomic<int>* lock = reinterpret_cast<std::atomic<int>*>(&g_shm->table_full) + 0;
    (void)lock;
    int k = -1;
    // simple registration: serialise via a CAS on the name's first byte
    for (int i = 0; i < max_counters; ++i)
    {
        auto* first = reinterpret_cast<std::atomic<char>*>(&g_shm->counter_names[i][47]);
        char exp = 0;
        if (first->compare_exchange_strong(exp, 1))
        {
            std::strncpy(g_shm->counter_names[i], name, 46);
            k = i;
            int want = i + 1, have = g_shm->n_counters.load();
            while (have < want && !g_shm->n_counters.compare_exchange_weak(have, want))
                ;
            break;
        }
        // wait until its name is visible
        while (g_shm->counter_names[i][0] == 0)
            ;
        if (!std::strcmp(g_shm->counter_names[i], name))
        {
            k = i;
            break;
        }
    }
    if (k >= 0)
        R->w->counts[k] += n;
}

namespace {

enum class outcome
{
    ok,
    pruned,
    bad
};

// Run the scenario once with the current stack.
outcome run_once(const scenario_def& sc, std::string& msg)
{
    runtime& r = *R;
    r.pos = 0;
    r.trans = 0;
    if (r.w)
        r.w->cur.n = 0;
    counters::live = 0;
    std::int64_t before = live_allocs();
    outcome res = outcome::ok;
    try
    {
        sc.fn();
    }
    catch (const violation& v)
    {
        msg = v.msg;
        res = outcome::bad;
    }
    catch (const prune&)
    {
        res = outcome::pruned;
    }
    catch (const engine_error& e)
    {
        std::fprintf(stderr, "ENGINE-ERROR %s\n", e.msg.c_str());
        if (r.w)
            r.w->status = 4;
        _exit(4);
    }
    catch (const std::exception& e)
    {
        msg = std::string("unexpected exception escaped the code under test: ") + e.what();
        res = outcome::bad;
    }
    catch (...)
    {
        msg = "unexpected exception of unknown type escaped the code under test";
        res = outcome::bad;
    }
    arm_alloc_fault(0);

    if (res == outcome::bad)
    {
        // msg holds one allocation at most; do not judge leaks here
        return res;
    }

    if (counters::live != 0)
    {
        std::ostringstream os;
        os << "payload objects alive after every container was destroyed: " << counters::live;
        msg = os.str();
        return outcome::bad;
    }
    std::int64_t after = live_allocs();
    if (after != before)
    {
        std::ostringstream os;
        os << "heap allocations still alive after every container was destroyed: " << (after - before);
        msg = os.str();
        return outcome::bad;
    }
    return res;
}

struct iso_shm
{
    int kind; // 0 nothing, 1 ok, 2 pruned, 3 violation, 4 engine error
    int pos, depth;
    std::uint64_t ticket, trans;
    entry stack[max_trace];
    char msg[8192];
    char text[1 << 16];
};

iso_shm* g_iso = nullptr;

} // namespace

void isolate(void (*fn)())
{
    runtime& r = *R;
    if (!g_iso)
    {
        void* p = mmap(nullptr, sizeof(iso_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
            throw engine_error{"mmap"};
        g_iso = static_cast<iso_shm*>(p);
    }
    iso_shm& o = *g_iso;
    o.kind = 0;
    const std::size_t text0 = r.text.size();
    pid_t pid = fork();
    if (pid < 0)
        throw engine_error{"fork"};
    if (pid == 0)
    {
        rlimit rl{30, 32};
        setrlimit(RLIMIT_CPU, &rl);
        std::string m;
        int kind = 1;
        try
        {
            fn();
        }
        catch (const violation& v)
        {
            kind = 3;
            m = v.msg;
        }
        catch (const prune&)
        {
            kind = 2;
        }
        catch (const engine_error& e)
        {
            kind = 4;
            m = e.msg;
        }
        catch (const std::exception& e)
        {
            kind = 3;
            m = std::string("unexpected exception escaped the code under test: ") + e.what();
        }
        catch (...)
        {
            kind = 3;
            m = "unexpected exception of unknown type escaped the code under test";
        }
        o.pos = r.pos;
        o.depth = r.depth;
        o.ticket = r.ticket;
        o.trans = r.trans;
        std::memcpy(o.stack, r.stack, sizeof(entry) * std::size_t(r.depth));
        std::strncpy(o.msg, m.c_str(), sizeof(o.msg) - 1);
        o.msg[sizeof(o.msg) - 1] = 0;
        std::strncpy(o.text, r.text.c_str() + text0, sizeof(o.text) - 1);
        o.text[sizeof(o.text) - 1] = 0;
        o.kind = kind;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) != pid)
        ;
    if (WIFSIGNALED(st))
    {
        // for all that matters it happened here
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
        _exit(99);
    }
    if (!o.kind)
        _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 98);
    r.pos = o.pos;
    r.depth = o.depth;
    r.ticket = o.ticket;
    r.trans = o.trans;
    std::memcpy(r.stack, o.stack, sizeof(entry) * std::size_t(o.depth));
    if (r.trace)
        r.text += o.text;
    switch (o.kind)
    {
        case 2:
            throw prune{};
        case 3:
            throw violation{o.msg};
        case 4:
            throw engine_error{o.msg};
    }
}

namespace {

int known_index(const std::string& msg)
{
    for (std::size_t i = 0; i < g_known.size(); ++i)
        if (msg.find(g_known[i].second) != std::string::npos)
            return static_cast<int>(i);
    return -1;
}

void worker_main(const scenario_def& sc, int wid, int nworkers, int split, double deadline)
{
    static runtime rt;
    R = &rt;
    rt.wid = wid;
    rt.nworkers = nworkers;
    rt.split = split;
    rt.w = &g_shm->w[wid];

    std::uint64_t next_sample = 1;
    std::string msg;
    msg.reserve(1 << 16);

    for (;;)
    {
        outcome o = run_once(sc, msg);
        std::uint64_t ex = 0;

        if (o == outcome::bad)
        {
            // leak verdicts can be caused by one-off lazy initialisation:
            // they must reproduce.
            bool leak = msg.rfind("heap allocations still alive", 0) == 0;
            if (leak)
            {
                int keep_pos = rt.pos;
                trace_t keep = rt.w->cur;
                int keep_fn = rt.first_new;
                int keep_depth = rt.depth;
                rt.depth = keep_pos < keep_depth ? keep_pos : keep_depth;
                bool keep_fixed = rt.fixed;
                rt.fixed = true;
                std::string m2;
                m2.reserve(1 << 12);
                run_once(sc, m2);
                m2.clear();
                outcome o2 = run_once(sc, m2);
                rt.fixed = keep_fixed;
                rt.first_new = keep_fn;
                rt.depth = keep_depth;
                rt.w->cur = keep;
                if (o2 != outcome::bad)
                    o = outcome::ok;
                else
                    msg = m2;
            }
        }

        if (o == outcome::bad)
        {
            int k = known_index(msg);
            if (k >= 0)
            {
                if (rt.w->known_hits[k]++ == 0)
                    rt.w->known_trace[k] = rt.w->cur;
            }
            else
            {
                std::strncpy(rt.w->msg, msg.c_str(), sizeof(rt.w->msg) - 1);
                rt.w->status = 2;
                g_shm->stop = 1;
                _exit(0);
            }
        }

        // executions that end before the split level are run by every worker
        bool counted = nworkers == 1 || (rt.pos < rt.split ? rt.wid == 0 : o != outcome::pruned || rt.pos > rt.split);
        if (counted)
        {
            rt.w->transitions.fetch_add(rt.trans, std::memory_order_relaxed);
            ex = rt.w->execs.fetch_add(1) + 1;
            if (rt.pos > rt.w->maxlen)
                rt.w->maxlen = rt.pos;
            if (ex >= next_sample && rt.w->n_samples < max_samples && o == outcome::ok)
            {
                rt.w->samples[rt.w->n_samples++] = rt.w->cur;
                next_sample = ex * 50 + wid * 7;
            }
        }

        // backtrack.  Entries beyond rt.pos cannot exist: the stack is cut
        // to what this execution consumed.
        rt.depth = rt.pos < rt.depth ? rt.pos : rt.depth;
        while (rt.depth > 0 && rt.stack[rt.depth - 1].chosen + 1 >= rt.stack[rt.depth - 1].n)
            --rt.depth;
        if (rt.depth == 0)
            break;
        ++rt.stack[rt.depth - 1].chosen;
        rt.first_new = rt.depth - 1;

        if (g_shm->stop.load(std::memory_order_relaxed))
            _exit(0);

        if ((ex & 63) == 0)
        {
            timespec ts;
            clock_gettime(CLOCK_MONOTONIC, &ts);
            if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadline)
            {
                rt.w->status = 3;
                _exit(0);
            }
        }
    }
    rt.w->status = 1;
    _exit(0);
}

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

double cpu_of(pid_t pid)
{
    clockid_t c;
    if (clock_getcpuclockid(pid, &c))
        return -1;
    timespec ts;
    if (clock_gettime(c, &ts))
        return -1;
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct replay_result
{
    bool bad = false;
    std::string msg;
    std::string text;
};

char* shared_bytes(std::size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
        std::exit(3);
    return static_cast<char*>(p);
}

// Re-execute a fixed trace in a child process; survive crashes and hangs.
replay_result replay(const scenario_def& sc, const trace_t& t, int cpu_limit)
{
    replay_result rr;
    if (!g_note_shm)
        g_note_shm = shared_bytes(note_shm_size);
    std::memset(g_note_shm, 0, note_shm_size);
    int fds[2];
    int errfds[2];
    if (pipe(fds) || pipe(errfds))
        return rr;
    std::fflush(stdout);
    std::fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fds[0]);
        close(errfds[0]);
        dup2(errfds[1], 2);
        rlimit rl{static_cast<rlim_t>(cpu_limit), static_cast<rlim_t>(cpu_limit + 2)};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        alarm(static_cast<unsigned>(cpu_limit) * 8);
        static runtime rt;
        R = &rt;
        rt.fixed = true;
        rt.depth = t.n;
        for (int i = 0; i < t.n; ++i)
            rt.stack[i].chosen = t.c[i];
        std::string msg;
        msg.reserve(1 << 16);
        rt.text.reserve(1 << 20);
        rt.trace = false;
        rt.w = nullptr;
        // First run: text, and the verdict if it crashes.  Second run: the
        // verdict without the effect of lazily initialised statics.
        rt.trace = true;
        run_once(sc, msg);
        rt.text.clear();
        std::memset(g_note_shm, 0, note_shm_size);
        msg.clear();
        outcome o = run_once(sc, msg);
        std::string out = (o == outcome::bad ? "BAD\n" : "OK\n");
        out += std::to_string(msg.size()) + "\n" + msg + rt.text;
        std::size_t off = 0;
        while (off < out.size())
        {
            ssize_t k = write(fds[1], out.data() + off, out.size() - off);
            if (k <= 0)
                break;
            off += static_cast<std::size_t>(k);
        }
        close(fds[1]);
        _exit(0);
    }
    close(fds[1]);
    close(errfds[1]);
    std::string out, err;
    // drain stderr in a helper process-free way: non-blocking poll loop
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    fcntl(errfds[0], F_SETFL, O_NONBLOCK);
    bool dead = false;
    int st = 0;
    for (;;)
    {
        char buf[65536];
        ssize_t k;
        bool any = false;
        while ((k = read(fds[0], buf, sizeof buf)) > 0)
        {
            out.append(buf, static_cast<std::size_t>(k));
            any = true;
        }
        while ((k = read(errfds[0], buf, sizeof buf)) > 0)
        {
            if (err.size() < 200000)
                err.append(buf, static_cast<std::size_t>(k));
            any = true;
        }
        if (dead && !any)
            break;
        if (!dead && waitpid(pid, &st, WNOHANG) == pid)
            dead = true;
        if (!any && !dead)
            usleep(2000);
    }
    close(fds[0]);
    close(errfds[0]);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
    {
        rr.bad = true;
        std::ostringstream os;
        if (WIFSIGNALED(st))
        {
            int sg = WTERMSIG(st);
            if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL)
                os << "hang: the execution did not finish within " << cpu_limit << " s of CPU time";
            else
                os << "crash: killed by signal " << sg << " (" << strsignal(sg) << ")";
        }
        else
            os << "crash: process exited with status " << WEXITSTATUS(st);
        rr.msg = os.str();
        rr.text = std::string(g_note_shm) + err.substr(0, 6000);
        return rr;
    }
    rr.bad = out.rfind("BAD\n", 0) == 0;
    std::size_t p = out.find('\n');
    std::size_t q = out.find('\n', p + 1);
    if (p == std::string::npos || q == std::string::npos)
        return rr;
    std::size_t len = std::strtoull(out.c_str() + p + 1, nullptr, 10);
    rr.msg = out.substr(q + 1, len);
    rr.text = out.substr(q + 1 + len);
    return rr;
}

std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        switch (c)
        {
            case '"':
                o += "\\\"";
                break;
            case '\\':
                o += "\\\\";
                break;
            case '\n':
                o += "\\n";
                break;
            case '\t':
                o += "\\t";
                break;
            default:
                if (c < 0x20 || c >= 0x7f)
                {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                }
                else
                    o += static_cast<char>(c);
        }
    }
    return o + "\"";
}

std::string trace_str(const trace_t& t)
{
    std::string s;
    for (int i = 0; i < t.n; ++i)
    {
        if (i)
            s += ',';
        s += std::to_string(t.c[i]);
    }
    return s;
}

template<typename T>
T* shared(std::size_t n)
{
    void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<T*>(p);
}

} // namespace

int main_impl(int argc, char** argv)
{
    std::string name, tier = "quick", out, replay_choices;
    bool san = false, do_list = false, do_replay = false;
    int workers = 8, split = 3, exec_cpu = 20;
    double cap = 600;
    std::vector<std::pair<std::string, int>> over;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--scenario")
            name = next();
        else if (a == "--tier")
            tier = next();
        else if (a == "--out")
            out = next();
        else if (a == "--workers")
            workers = std::atoi(next().c_str());
        else if (a == "--split")
            split = std::atoi(next().c_str());
        else if (a == "--cap")
            cap = std::atof(next().c_str());
        else if (a == "--san")
            san = true;
        else if (a == "--list")
            do_list = true;
        else if (a == "--exec-cpu")
            exec_cpu = std::atoi(next().c_str());
        else if (a == "--param")
        {
            std::string p = next();
            auto e = p.find('=');
            over.emplace_back(p.substr(0, e), std::atoi(p.c_str() + e + 1));
        }
        else if (a == "--known")
        {
            std::string p = next();
            auto e = p.find('=');
            g_known.emplace_back(p.substr(0, e), p.substr(e + 1));
        }
        else if (a == "--replay")
        {
            do_replay = true;
            replay_choices = next();
        }
    }
    if (do_list)
    {
        for (auto& s : scenarios())
            std::printf("%s\t%s\n", s.name, s.what);
        return 0;
    }
    const scenario_def* sc = nullptr;
    for (auto& s : scenarios())
        if (name == s.name)
            sc = &s;
    if (!sc)
    {
        std::fprintf(stderr, "no such scenario: %s\n", name.c_str());
        return 3;
    }
    std::string params_json;
    for (auto& p : sc->params)
    {
        int v = tier == "thorough" ? (san ? p.san_thorough : p.thorough) : (san ? p.san_quick : p.quick);
        for (auto& o : over)
            if (o.first == p.name)
                v = o.second;
        g_params[p.name] = v;
        params_json += (params_json.empty() ? "" : ", ") + jstr(p.name) + ": " + std::to_string(v);
    }
    if (g_params.count("split"))
        split = g_params["split"];

    g_shm = shared<shm_t>(1);
    g_tickets = shared<std::atomic<std::uint8_t>>(g_n_tickets);
    g_states = shared<std::atomic<std::uint64_t>>(g_table_size);
    g_visits = shared<std::atomic<std::uint64_t>>(g_table_size);

    if (do_replay)
    {
        static trace_t t;
        t.n = 0;
        std::istringstream is(replay_choices);
        std::string tok;
        while (std::getline(is, tok, ','))
            if (!tok.empty())
                t.c[t.n++] = static_cast<std::uint16_t>(std::atoi(tok.c_str()));
        auto rr = replay(*sc, t, exec_cpu);
        std::printf("%s\n%s\n%s\n", rr.bad ? "REPLAY: VIOLATION" : "REPLAY: ok", rr.msg.c_str(), rr.text.c_str());
        return rr.bad ? 1 : 0;
    }

    if (workers > max_workers)
        workers = max_workers;
    double t0 = now();
    double deadline = t0 + cap;
    std::fflush(stdout);
    std::vector<pid_t> pids;
    for (int i = 0; i < workers; ++i)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            int dn = open("/dev/null", O_WRONLY);
            if (dn >= 0)
                dup2(dn, 2);
            worker_main(*sc, i, workers, split, deadline);
            _exit(0);
        }
        pids.push_back(pid);
    }

    std::vector<bool> done(static_cast<std::size_t>(workers), false);
    std::vector<std::uint64_t> last(static_cast<std::size_t>(workers), 0);
    std::vector<double> last_cpu(static_cast<std::size_t>(workers), 0);
    bool bad = false;
    bool known_crash_stop = false;
    trace_t bad_trace;
    bad_trace.n = 0;
    std::string bad_msg, bad_text;
    int left = workers;
    bool engine_err = false;
    int lost_workers = 0;

    auto stop_all = [&]() {
        g_shm->stop = 1;
        for (int i = 0; i < workers; ++i)
            if (!done[static_cast<std::size_t>(i)])
                kill(pids[static_cast<std::size_t>(i)], SIGKILL);
    };

    while (left > 0)
    {
        bool any = false;
        for (int i = 0; i < workers; ++i)
        {
            auto ui = static_cast<std::size_t>(i);
            if (done[ui])
                continue;
            int st = 0;
            pid_t p = waitpid(pids[ui], &st, WNOHANG);
            worker_shm& w = g_shm->w[i];
            if (p == pids[ui])
            {
                done[ui] = true;
                --left;
                any = true;
                if (w.status == 4)
                    engine_err = true;
                else if (w.status == 2 && !bad)
                {
                    bad = true;
                    bad_trace = w.cur;
                    bad_msg = w.msg;
                }
                else if (w.status == 0 && !g_shm->stop && !bad)
                {
                    // died: the code under test brought the process down
                    bad = true;
                    bad_trace = w.cur;
                    std::ostringstream os;
                    if (WIFSIGNALED(st))
                        os << "crash: killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
                    else
                        os << "crash: process exited with status " << WEXITSTATUS(st);
                    bad_msg = os.str();
                    stop_all();
                }
                continue;
            }
            double cpu = cpu_of(pids[ui]);
            std::uint64_t e = w.execs.load();
            if (e != last[ui])
            {
                last[ui] = e;
                last_cpu[ui] = cpu;
            }
            else if (cpu >= 0 && cpu - last_cpu[ui] > exec_cpu * 2 && !bad)
            {
                // possibly stuck inside one execution: judge it by replay
                trace_t t = w.cur;
                auto rr = replay(*sc, t, exec_cpu);
                if (rr.bad && w.execs.load() == e)
                {
                    bad = true;
                    bad_trace = t;
                    bad_msg = rr.msg;
                    stop_all();
                }
                else
                    last_cpu[ui] = cpu;
            }
        }
        if (!any)
            usleep(5000);
    }

    double wall = now() - t0;

    // aggregate
    std::uint64_t execs = 0, trans = 0, pruned = 0;
    bool capped = false;
    int maxlen = 0;
    std::vector<std::uint64_t> counts(max_counters, 0);
    std::vector<std::uint64_t> known(g_known.size(), 0);
    std::vector<trace_t*> known_tr(g_known.size(), nullptr);
    for (int i = 0; i < workers; ++i)
    {
        worker_shm& w = g_shm->w[i];
        execs += w.execs;
        trans += w.transitions;
        pruned += w.pruned;
        if (w.status == 3)
            capped = true;
        maxlen = std::max(maxlen, w.maxlen.load());
        for (int k = 0; k < max_counters; ++k)
            counts[static_cast<std::size_t>(k)] += w.counts[k];
        for (std::size_t k = 0; k < g_known.size(); ++k)
        {
            known[k] += w.known_hits[k];
            if (w.known_hits[k] && !known_tr[k])
                known_tr[k] = &w.known_trace[k];
        }
    }

    bool confirmed = true;
    if (bad)
    {
        // never report without a replay on the real code
        replay_result rr;
        confirmed = false;
        for (int k = 0; k < 3 && !confirmed; ++k)
        {
            rr = replay(*sc, bad_trace, exec_cpu);
            confirmed = rr.bad;
        }
        if (confirmed)
        {
            bad_msg = rr.msg.empty() ? bad_msg : rr.msg;
            bad_text = rr.text;
        }
        else
        {
            bad_text = rr.text;
        }
    }
    (void)known_crash_stop;
    (void)lost_workers;

    std::string samples;
    int ns = 0;
    for (int i = 0; i < workers && ns < 3; ++i)
    {
        worker_shm& w = g_shm->w[i];
        int k = w.n_samples - 1;
        if (k < 0 || bad)
            continue;
        auto rr = replay(*sc, w.samples[k], exec_cpu);
        std::string txt = rr.text.substr(0, 1500);
        samples += (ns ? ", " : "") + std::string("{\"choices\": ") + jstr(trace_str(w.samples[k])) +
                   ", \"trace\": " + jstr(txt) + "}";
        ++ns;
    }

    std::ostringstream os;
    os << "{\n  \"scenario\": " << jstr(name) << ",\n  \"what\": " << jstr(sc->what) << ",\n  \"tier\": " << jstr(tier)
       << ",\n  \"sanitized\": " << (san ? "true" : "false") << ",\n  \"params\": {" << params_json << "}"
       << ",\n  \"executions\": " << execs << ",\n  \"transitions\": " << trans << ",\n  \"states\": "
       << g_shm->states.load() << ",\n  \"pruned_revisits\": " << pruned << ",\n  \"max_choices\": " << maxlen
       << ",\n  \"table_overflow\": " << g_shm->table_full.load() << ",\n  \"capped\": " << (capped ? "true" : "false")
       << ",\n  \"engine_error\": " << (engine_err ? "true" : "false") << ",\n  \"wall_s\": " << wall
       << ",\n  \"counts\": {";
    for (int k = 0; k < g_shm->n_counters; ++k)
        os << (k ? ", " : "") << jstr(g_shm->counter_names[k]) << ": " << counts[static_cast<std::size_t>(k)];
    os << "},\n  \"known\": {";
    for (std::size_t k = 0; k < g_known.size(); ++k)
    {
        os << (k ? ", " : "") << jstr(g_known[k].first) << ": {\"hits\": " << known[k];
        if (known_tr[k])
            os << ", \"choices\": " << jstr(trace_str(*known_tr[k]));
        os << "}";
    }
    os << "},\n  \"samples\": [" << samples << "],\n  \"violation\": ";
    if (bad)
        os << "{\"confirmed\": " << (confirmed ? "true" : "false") << ", \"message\": " << jstr(bad_msg)
           << ", \"choices\": " << jstr(trace_str(bad_trace)) << ", \"trace\": " << jstr(bad_text.substr(0, 8000))
           << "}";
    else
        os << "null";
    os << "\n}\n";
    if (out.empty())
        std::cout << os.str();
    else
        std::ofstream(out) << os.str();
    if (engine_err)
        return 3;
    return bad ? 1 : 0;
}

} // namespace mc

int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
