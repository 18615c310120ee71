// allocation failures while multi_type_vector containers are copied, cloned, assigned or detached
#include "mtv_common.hpp"

#include <optional>

namespace {

using namespace mtvh;

template<typename Cont, typename Tr, bool Noncopyable>
struct faults
{
    using C = Cont;
    using Md = model<C, Tr>;
    using Set = typename Tr::set;
    static constexpr bool cow = Tr::enable_cow;
    static constexpr int N = 5; // source, two that may share with it, destination, one that may share with that

    /** reads the block without allocating */
    static std::size_t touch(const base_element_block& b)
    {
        element_t t = mdds::mtv::get_block_type(b);
        if (t == Set::iblock::block_type)
            return Set::iblock::size(b);
        if (t == Set::sblock::block_type)
            return Set::sblock::size(b);
        if (t == Set::mblock::block_type)
            return Set::mblock::size(b);
        return std::size_t(-1);
    }

    struct world
    {
        scoped_ledger led{&touch};
        std::optional<C> c[N];
        cells r[N];
        std::optional<C> made; // by the operation
        cells made_r;
    };

    cells shape[2]; // of the source and of the destination
    int share = 0, dshare = 0;

    /** builds the containers; the same ones each time */
    void build(world& w) const
    {
        w.led.l.held.reserve(400);
        for (int i = 0; i < N; ++i)
            w.c[i].emplace(events{i});
        auto fill = [&](int k, const cells& s) {
            int id = k * 100;
            for (auto& x : s)
                Md::append(*w.c[k], w.r[k], x.type, id);
        };
        fill(0, shape[0]);
        fill(3, shape[1]);
        auto same = [&](int from, int to) {
            if constexpr (cow)
                w.c[to].emplace(w.c[from]->clone(events{to}));
            w.r[to] = w.r[from];
        };
        if (share > 0)
            same(0, 1);
        if (share == 2)
            same(1, 2);
        if (share == 3) // the source has itself been a copy
            same(0, 2), same(2, 1);
        if (dshare)
            same(3, 4);
    }

    static void check(world& w, const std::string& what)
    {
        static const char* who[] = {"source", "second", "third", "destination", "copy of the destination"};
        for (int i = 0; i < N; ++i)
            Md::check(*w.c[i], w.r[i], what + ": " + who[i]);
        if (w.made)
            Md::check(*w.made, w.made_r, what + ": the new container");
        if (w.made)
            Md::check_events(w.led.l, {&*w.c[0], &*w.c[1], &*w.c[2], &*w.c[3], &*w.c[4], &*w.made});
        else
            Md::check_events(w.led.l, {&*w.c[0], &*w.c[1], &*w.c[2], &*w.c[3], &*w.c[4]});
        if constexpr (Md::managed)
        {
            std::vector<std::pair<const base_element_block*, std::size_t>> blocks;
            auto add = [&](const C& x) {
                for (auto it = x.begin(), e = x.end(); !(it == e); ++it)
                    if (it->data && it->type == Set::mblock::block_type)
                        blocks.emplace_back(it->data, it->size);
            };
            for (int i = 0; i < N; ++i)
                add(*w.c[i]);
            if (w.made)
                add(*w.made);
            std::sort(blocks.begin(), blocks.end());
            blocks.erase(std::unique(blocks.begin(), blocks.end()), blocks.end());
            std::int64_t n = 0;
            for (auto& b : blocks)
                n += b.second;
            MC_CHECK(mobj::live == n, << what << ": " << mobj::live << " managed elements alive, " << n << " in the containers");
        }
    }

    // what the operation needs, prepared before the fault is armed
    struct args
    {
        typename Md::I i{};
        typename Md::S s{};
        typename Md::M m{};
        bool m_taken = true;
    };

    static constexpr int makers = 4, mutators = 13;
    int op = 0, p = 0, target = 0, type = 0;

    static const char* op_name(int op)
    {
        static const char* names[] = {"copy construction", "clone", "clone with a handler", "copy assignment", "detach", "set", "set_empty", "erase",
                                      "shrink", "grow", "push_back", "insert_empty", "set of a range", "transfer", "swap", "clear", "push_back_empty"};
        return names[op];
    }

    /** the number of parameters p can take */
    int params() const
    {
        int n = int(shape[0].size());
        switch (op)
        {
            case 5:
            case 6:
            case 7:
            case 11:
            case 12:
                return n;
            case 13:
            case 14:
                return shape[1].size() ? n : 0;
            case 8:
                return n;
            default:
                return 1;
        }
    }

    void prepare(args& a) const
    {
        a.i = mkval<typename Md::I>(901);
        a.s = mkval<typename Md::S>(902);
        if (op == 5 && type == 3)
        {
            a.m = mkval<typename Md::M>(903);
            a.m_taken = false;
        }
    }

    void perform(world& w, args& a) const
    {
        C& t = *w.c[target];
        std::size_t q = p;
        switch (op)
        {
            case 0:
                if constexpr (!Noncopyable)
                    w.made.emplace(std::as_const(t));
                break;
            case 1:
                w.made.emplace(t.clone());
                break;
            case 2:
                if constexpr (requires { t.clone(events{8}); })
                    w.made.emplace(t.clone(events{8}));
                else
                    w.made.emplace(t.clone());
                break;
            case 3:
                if constexpr (!Noncopyable)
                    *w.c[3] = std::as_const(t);
                break;
            case 4:
                if constexpr (cow)
                    t.detach();
                break;
            case 5:
                if (type == 1)
                    t.set(q, a.i);
                else if (type == 2)
                    t.set(q, a.s);
                else
                {
                    t.set(q, a.m);
                    a.m_taken = true;
                }
                break;
            case 6:
                t.set_empty(q, q);
                break;
            case 7:
                t.erase(q, q);
                break;
            case 8:
                t.resize(q);
                break;
            case 9:
                t.resize(t.size() + 2);
                break;
            case 10:
                t.push_back(a.i);
                break;
            case 11:
                t.insert_empty(q, 1);
                break;
            case 12:
                t.set(q, &a.s, &a.s + 1);
                break;
            case 13:
                t.transfer(q, q, *w.c[3], w.c[3]->size() - 1);
                break;
            case 14:
                t.swap(q, q, *w.c[3], w.c[3]->size() - 1);
                break;
            case 15:
                t.clear();
                break;
            default:
                t.push_back_empty();
        }
    }

    /** the same on the reference */
    void apply(world& w) const
    {
        cells& r = w.r[target];
        switch (op)
        {
            case 0:
            case 1:
            case 2:
                w.made_r = r;
                break;
            case 3:
                w.r[3] = r;
                break;
            case 4:
                break;
            case 5:
                r[p] = {type, 900 + type};
                break;
            case 6:
                r[p] = {};
                break;
            case 7:
                r.erase(r.begin() + p);
                break;
            case 8:
                r.resize(p);
                break;
            case 9:
                r.resize(r.size() + 2);
                break;
            case 10:
                r.push_back({1, 901});
                break;
            case 11:
                r.insert(r.begin() + p, cell{});
                break;
            case 12:
                r[p] = {2, 902};
                break;
            case 13:
                w.r[3].back() = r[p];
                r[p] = {};
                break;
            case 14:
                std::swap(w.r[3].back(), r[p]);
                break;
            case 15:
                r.clear();
                break;
            default:
                r.push_back({});
        }
    }

    void explore(int maxlen, int types)
    {
        int id = 0;
        {
            int n = mc::choose(maxlen + 1);
            for (int i = 0; i < n; ++i)
                shape[0].push_back({mc::choose(types), ++id});
        }
        bool has_m = false;
        for (auto& x : shape[0])
            has_m = has_m || x.type == 3;
        op = mc::choose(cow ? makers + mutators : makers);
        if (Noncopyable && (op == 0 || op == 3))
            return;
        if (op == 3 || op == 13 || op == 14)
        {
            static const std::vector<int> dest[] = {{}, {3}, {2, 2, 0, 1}, {3, 3, 2}};
            for (int t : dest[mc::choose(4)])
                shape[1].push_back({t, ++id});
        }
        int n = params();
        if (!n)
            return;
        p = mc::choose(n);
        type = op == 5 ? 1 + mc::choose(3) : 0;
        if (cow)
        {
            share = op >= makers ? 1 + mc::choose(3) : mc::choose(4);
            target = share ? mc::choose(2) : 0;
            dshare = shape[1].empty() ? 0 : mc::choose(2);
        }
        MC_NOTE(op_name(op) << " at " << p << " type " << type << " of " << show(shape[0]) << ", destination " << show(shape[1]) << ", sharing " << share << "/" << dshare << ", target " << target);
        mc::transition();
        // the operations after detaching promise less when they fail
        std::int64_t limit = 1000;
        {
            world w;
            build(w);
            args a;
            prepare(a);
            {
                // first use of everything: what is set up once and kept is set up here
                world u;
                build(u);
                args b;
                prepare(b);
                perform(u, b);
            }
            events::cur = &w.led.l;
            events::touch = &touch;
            if (op > makers)
            {
                if constexpr (cow)
                {
                    mc::arm_alloc_fault(100000);
                    w.c[target]->detach();
                    if (op == 13 || op == 14)
                        w.c[3]->detach();
                    limit = mc::allocs_since_arm();
                    mc::arm_alloc_fault(0);
                }
            }
            if (!a.m_taken)
                dropval(a.m);
        }
        bool again = false;
        for (std::int64_t k = 1; k <= limit + 1; ++k)
        {
            const std::int64_t limit0 = limit;
            const std::int64_t base = mc::live_allocs();
            bool threw = false;
            {
                world w;
                build(w);
                args a;
                prepare(a);
                std::string what = std::string(op_name(op)) + " with allocation " + std::to_string(k) + " failing";
                if (k <= limit)
                    mc::arm_alloc_fault(k);
                try
                {
                    perform(w, a);
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                const std::int64_t n = k <= limit ? mc::allocs_since_arm() : 0;
                mc::arm_alloc_fault(0);
                MC_CHECK(threw == (n >= k), << what << (threw ? ": throws" : ": the exception does not propagate"));
                if (threw)
                {
                    mc::count("failures");
                    if (w.made)
                        mc::fail(what + ": there is a new container");
                    if (!a.m_taken)
                    {
                        dropval(a.m);
                        a.m_taken = true;
                    }
                    check(w, what);
                    // everything can still be used
                    prepare(a);
                    perform(w, a);
                    what += ", then tried again";
                }
                else
                {
                    if (k <= limit)
                        limit = 0;
                    what = std::string(op_name(op));
                }
                apply(w);
                check(w, what);
                // gone in an order of choice; they must not need each other
                if (k & 1)
                {
                    w.made.reset();
                    for (int i = 0; i < N; ++i)
                        w.c[i].reset();
                }
                else
                    for (int i = N; i-- > 0;)
                        w.c[i].reset();
                w.made.reset();
                w.led.none();
                MC_CHECK(mobj::live == 0, << what << ": " << mobj::live << " managed elements left");
            }
            if (mc::live_allocs() != base && !again)
            {
                // what is set up once and kept does not recur: the same again
                again = true;
                limit = limit0;
                --k;
                continue;
            }
            again = false;
            MC_CHECK(mc::live_allocs() == base, << op_name(op) << " with allocation " << k << " failing: " << mc::live_allocs() - base << " allocation(s) leaked");
        }
    }
};

} // namespace
