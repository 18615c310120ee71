// FLAGS: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
// WITH: sched.cpp
// copy-on-write containers sharing blocks, each used by a thread of its own
#include "sched.hpp"

#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>

#include <memory>
#include <optional>
#include <string>

namespace {

/** an object owned by the blocks of one container or group of containers */
struct obj
{
    std::unique_ptr<int> mem;
    int id() const { return *mem; }
    explicit obj(int v) : mem(new int(v)) { sched::alive(1); }
    obj(const obj& o) : mem(new int(*o.mem)) { sched::alive(1); }
    ~obj() { sched::alive(-1); }
    bool operator==(const obj& o) const { return *mem == *o.mem; }
};

using obj_block = mdds::mtv::managed_element_block<60, obj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(obj, 60, nullptr, obj_block)

using iblock = mdds::mtv::int32_element_block;
using sblock = mdds::mtv::string_element_block;

/** counts the blocks of its container */
struct handler
{
    int held = 0;
    handler() = default;
    handler(const handler&) {}
    handler(handler&& o) : held(std::exchange(o.held, 0)) {}
    handler& operator=(const handler&) { return *this; }
    handler& operator=(handler&& o)
    {
        std::swap(held, o.held);
        return *this;
    }
    void element_block_acquired(const mdds::mtv::base_element_block*) { ++held; }
    void element_block_released(const mdds::mtv::base_element_block*) { --held; }
};

struct traits : mdds::mtv::default_traits
{
    using event_func = handler;
    using block_funcs = mdds::mtv::element_block_funcs<iblock, sblock, obj_block>;
    static constexpr bool enable_cow = true;
};

using C = mdds::mtv::soa::multi_type_vector<traits>;

struct cell
{
    int type = 0, id = 0;
};
using cells = std::vector<cell>;

std::string str(int id) { return "the string value number " + std::to_string(id); }

void push(C& c, cells& r, int type, int id)
{
    switch (type)
    {
        case 0:
            c.push_back_empty();
            break;
        case 1:
            c.push_back(id);
            break;
        case 2:
            c.push_back(str(id));
            break;
        case 3:
            c.push_back(new obj(id));
            break;
    }
    r.push_back({type, type ? id : 0});
}

void check(const C& c, const cells& r, const char* what)
{
    MC_CHECK(c.size() == r.size(), << what << ": size " << c.size() << " instead of " << r.size());
    std::size_t blocks = 0, filled = 0;
    for (std::size_t i = 0; i < r.size(); ++i)
        blocks += !i || r[i].type != r[i - 1].type;
    for (std::size_t i = 0; i < r.size(); ++i)
        filled += r[i].type && (!i || r[i].type != r[i - 1].type);
    MC_CHECK(c.block_size() == blocks, << what << ": " << c.block_size() << " blocks instead of " << blocks);
    MC_CHECK(c.event_handler().held == int(filled), << what << ": the handler knows of " << c.event_handler().held << " blocks of " << filled);
    std::size_t i = 0;
    for (auto it = c.begin(), e = c.end(); it != e; ++it)
    {
        MC_CHECK(it->position == i && i + it->size <= r.size(), << what << ": a block at " << it->position << " of size " << it->size);
        for (std::size_t k = 0; k < it->size; ++k, ++i)
        {
            bool ok = false;
            switch (r[i].type)
            {
                case 0:
                    ok = it->type == mdds::mtv::element_type_empty && c.is_empty(i);
                    break;
                case 1:
                    ok = it->type == iblock::block_type && iblock::at(*it->data, k) == r[i].id && c.get<int>(i) == r[i].id;
                    break;
                case 2:
                    ok = it->type == sblock::block_type && sblock::at(*it->data, k) == str(r[i].id);
                    break;
                case 3:
                    ok = it->type == obj_block::block_type && obj_block::at(*it->data, k)->id() == r[i].id;
                    break;
            }
            MC_CHECK(ok, << what << ": the element at " << i << " of type " << r[i].type << " is another");
        }
    }
    MC_CHECK(i == r.size(), << what << ": the blocks end at " << i);
}

const char* op_names[] = {"read",  "set int at the front", "set object in the middle", "set_empty", "erase first", "insert_empty", "push_back string",
                          "shrink", "clear", "detach", "copy", "assign to a local one", "move to and fro", "swap with a local one", "transfer", "compare",
                          "destroy", "detach and release", "insert a range", "clone, forget the own one"};
constexpr int n_ops = 20;
constexpr int few_ops[] = {16, 2, 0, 10, 8, 9, 11, 12, 7, 17, 18, 14, 13, 1, 3, 4, 5, 6, 15, 19};

/** one operation of thread t on its container, and what it means */
void perform(std::unique_ptr<C>& own, cells& r, int op, int t)
{
    if (!own)
        return; // gone already
    C& c = *own;
    const int id = 50 + 10 * t;
    const std::size_t n = r.size();
    switch (op)
    {
        case 0:
            check(c, r, "read");
            break;
        case 1:
            if (n)
            {
                c.set(0, id);
                r[0] = {1, id};
            }
            break;
        case 2:
            if (n)
            {
                c.set(n / 2, new obj(id));
                r[n / 2] = {3, id};
            }
            break;
        case 3:
            if (n)
            {
                c.set_empty(n / 2, n - 1);
                for (std::size_t i = n / 2; i < n; ++i)
                    r[i] = {};
            }
            break;
        case 4:
            if (n)
            {
                c.erase(0, 0);
                r.erase(r.begin());
            }
            break;
        case 5:
            if (n)
            {
                c.insert_empty(n / 2, 2);
                r.insert(r.begin() + n / 2, 2, cell{});
            }
            break;
        case 6:
            push(c, r, 2, id);
            break;
        case 7:
            c.resize(n / 2);
            r.resize(n / 2);
            break;
        case 8:
            c.clear();
            r.clear();
            break;
        case 9:
            c.detach();
            break;
        case 10:
        {
            C d(c);
            check(d, r, "the copy");
            cells s = r;
            push(d, s, 1, id);
            check(d, s, "the copy, changed");
            break;
        }
        case 11:
        {
            C d;
            cells s;
            push(d, s, 3, id);
            d = c;
            check(d, r, "assigned");
            break;
        }
        case 12:
        {
            C d(std::move(c));
            check(d, r, "moved to");
            c = std::move(d);
            break;
        }
        case 13:
        {
            C d;
            cells s;
            push(d, s, 3, id);
            d.swap(c);
            check(d, r, "swapped");
            r = s;
            break;
        }
        case 14:
            if (n)
            {
                C d(1);
                cells s{r[0]};
                c.transfer(0, 0, d, 0);
                r[0] = {};
                check(d, s, "transferred to");
            }
            break;
        case 15:
        {
            C d = c.clone();
            MC_CHECK(d == c, << "a clone differs");
            if (n)
            {
                d.set_empty(0, n - 1);
                bool empty = true;
                for (auto& x : r)
                    empty = empty && !x.type;
                MC_CHECK((d == c) == empty, << "comparison of a changed clone");
            }
            break;
        }
        case 16:
            own.reset();
            r.clear();
            break;
        case 17:
        {
            c.detach();
            C d(c.size());
            for (std::size_t i = 0; i < n; ++i)
                if (r[i].type == 3)
                {
                    std::unique_ptr<obj> p(c.release<obj*>(i));
                    MC_CHECK(p->id() == r[i].id, << "another object released");
                    r[i] = {};
                }
            break;
        }
        case 18:
            if (n)
            {
                std::vector<int> v{id, id + 1};
                c.insert(n / 2, v.begin(), v.end());
                r.insert(r.begin() + n / 2, {{1, id}, {1, id + 1}});
            }
            break;
        case 19:
        {
            auto d = std::make_unique<C>(c.clone());
            own = std::move(d);
            break;
        }
    }
}

const std::vector<int> shapes[] = {{1, 3, 3, 2}, {3}, {0, 2, 2, 1, 1, 3}, {1, 1}, {}, {3, 0, 3}};

struct setup
{
    int shape = 0, topology = 0, threads = 2, ops[3][2] = {}, n_ops = 1, preemptions = 2, ends = 0;
} g;

void body()
{
    {
        std::unique_ptr<C> own[3], rest;
        cells r[3], rest_r;
        auto src = std::make_unique<C>();
        cells sr;
        int id = 0;
        for (int t : shapes[g.shape])
            push(*src, sr, t, ++id);
        for (int i = 0; i < g.threads; ++i)
            r[i] = sr;
        switch (g.topology)
        {
            case 0: // the source and copies of it
                for (int i = 1; i < g.threads; ++i)
                    own[i] = std::make_unique<C>(*src);
                own[0] = std::move(src);
                break;
            case 1: // copies, and the source stays behind
                own[0] = std::make_unique<C>(src->clone());
                own[1] = std::make_unique<C>(*own[0]);
                for (int i = 2; i < g.threads; ++i)
                    own[i] = std::make_unique<C>(*own[0]);
                rest = std::move(src);
                rest_r = sr;
                break;
            case 2: // the source is gone; one was assigned over another sharing
            {
                own[0] = std::make_unique<C>(*src);
                rest = std::make_unique<C>();
                push(*rest, rest_r, 3, 40);
                push(*rest, rest_r, 1, 41);
                own[1] = std::make_unique<C>(*rest);
                *own[1] = *own[0];
                for (int i = 2; i < g.threads; ++i)
                    own[i] = std::make_unique<C>(own[1]->clone());
                src.reset();
                break;
            }
        }
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < g.threads; ++t)
            fns.push_back([&own, &r, t] {
                for (int k = 0; k < g.n_ops; ++k)
                    perform(own[t], r[t], g.ops[t][k], t);
                if (own[t])
                    check(*own[t], r[t], "afterwards");
                if (g.ends >> t & 1)
                    own[t].reset();
            });
        sched::run(fns, g.preemptions);
        for (int t = 0; t < g.threads; ++t)
            if (own[t])
                check(*own[t], r[t], "at the end");
        if (rest)
            check(*rest, rest_r, "the one left behind");
        fns.clear();
        // those that are left need not each other
        rest.reset();
        for (int t = g.threads; t-- > 0;)
            own[t].reset();
    }
    MC_CHECK(sched::alive() == 0, << sched::alive() << " objects left");
}

void isolated()
{
    sched::init();
    const std::int64_t base = mc::live_allocs() - sched::static_allocs();
    body();
    const std::int64_t left = mc::live_allocs() - sched::static_allocs() - base;
    MC_CHECK(left == 0, << left << " allocation(s) left");
}

void note()
{
    std::string s = "shape";
    for (int t : shapes[g.shape])
        s += "-ISM"[t];
    s += " shared in way " + std::to_string(g.topology);
    for (int t = 0; t < g.threads; ++t)
    {
        s += ", thread " + std::to_string(t) + ":";
        for (int k = 0; k < g.n_ops; ++k)
            s += std::string(" ") + op_names[g.ops[t][k]] + ";";
        if (g.ends >> t & 1)
            s += " destroy";
    }
    MC_NOTE(s);
}

void pairs(int threads, int n_ops_, int shapes_, int preemptions, bool first_use, int ops = 0)
{
    g = setup();
    g.threads = threads;
    g.n_ops = n_ops_;
    g.preemptions = preemptions;
    g.shape = mc::choose(shapes_);
    g.topology = mc::choose(3);
    for (int t = 0; t < threads; ++t)
        for (int k = 0; k < g.n_ops; ++k)
            g.ops[t][k] = ops ? few_ops[mc::choose(ops)] : mc::choose(n_ops);
    g.ends = first_use ? (1 << threads) - 1 : mc::choose(1 << threads);
    note();
    mc::transition();
    if (first_use)
        mc::isolate(isolated);
    else
        isolated();
}

} // namespace

MC_SCENARIO(
    cow_first_use, "two threads with one operation each on containers sharing blocks, each execution in a process of its own, so that "
                   "everything is used for the first time",
    {"split", 3, 3, 3, 3}, {"shapes", 2, 6, 1, 1}, {"preemptions", 1, 2, 1, 1})
{
    pairs(2, 1, mc::param("shapes"), mc::param("preemptions"), true);
}

MC_SCENARIO(
    cow_threads2, "two threads with one operation each on containers sharing blocks; every shape, way of sharing and pair of operations",
    {"split", 3, 3, 3, 3}, {"shapes", 6, 6, 1, 1}, {"preemptions", 100, 100, 1, 1})
{
    pairs(2, 1, mc::param("shapes"), mc::param("preemptions"), false);
}

MC_SCENARIO(
    cow_threads2x2, "two threads with two operations each", {"split", 4, 4, 4, 4}, {"shapes", 1, 2, 1, 1}, {"preemptions", 1, 3, 1, 1},
    {"ops", 9, 14, 1, 1})
{
    pairs(2, 2, mc::param("shapes"), mc::param("preemptions"), false, mc::param("ops"));
}

MC_SCENARIO(
    cow_threads3, "three threads with one operation each", {"split", 4, 4, 4, 4}, {"shapes", 1, 3, 1, 1}, {"preemptions", 1, 2, 1, 1},
    {"ops", 10, 20, 1, 1})
{
    pairs(3, 1, mc::param("shapes"), mc::param("preemptions"), false, mc::param("ops"));
}
