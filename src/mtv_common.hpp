// Shared parts of the multi-type vector harnesses: element types, block event
// ledger, reference model (a plain array of variants) and the full comparison.
#pragma once

#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>

#include <deque>
#include <stdexcept>

namespace mtvh {

/** an object owned by a managed element block */
struct mobj
{
    static inline std::int64_t live = 0;
    int id;
    int* mem; // a leak or double destruction also shows on the heap
    explicit mobj(int v) : id(v), mem(new int(v)) { ++live; }
    mobj(const mobj& o) : id(o.get()), mem(new int(o.get())) { ++live; }
    mobj& operator=(const mobj&) = delete;
    ~mobj()
    {
        if (id < 0)
            mc::fail("a managed element is destroyed twice");
        id = -1;
        delete mem;
        --live;
    }
    int get() const
    {
        if (id < 0 || *mem != id)
            mc::fail("use of a destroyed managed element");
        return id;
    }
    friend bool operator==(const mobj& a, const mobj& b) { return a.get() == b.get(); }
};

/** the same, not copyable (cloned through clone_value only) */
struct nobj : mobj
{
    using mobj::mobj;
    nobj(const nobj&) = delete;
    nobj(const mobj& o) : mobj(o.get()) {}
};

/** the same, for blocks with a deque store */
struct dnobj : nobj
{
    using nobj::nobj;
    dnobj(const dnobj&) = delete;
};

} // namespace mtvh

namespace mdds { namespace mtv {

template<>
struct clone_value<mtvh::dnobj*>
{
    mtvh::dnobj* operator()(const mtvh::dnobj* p) { return new mtvh::dnobj(p->get()); }
};

/** clones non-copyable objects; carries state across the elements of a block */
template<>
struct clone_value<mtvh::nobj*>
{
    int n = 0;
    mtvh::nobj* operator()(const mtvh::nobj* p)
    {
        ++n;
        return new mtvh::nobj(p->get());
    }
};

}} // namespace mdds::mtv

namespace mtvh {

using mdds::mtv::base_element_block;
using mdds::mtv::element_t;

// values stored in blocks with std::vector and std::deque stores
template<int Tag>
struct wrapped_int
{
    int v = 0;
    bool operator==(const wrapped_int&) const = default;
};
template<int Tag>
struct wrapped_str
{
    std::string v;
    bool operator==(const wrapped_str&) const = default;
};
template<int Tag>
struct wrapped_obj : mobj
{
    using mobj::mobj;
};

using vint = wrapped_int<1>;
using vstr = wrapped_str<1>;
using vobj = wrapped_obj<1>;
using dint = wrapped_int<2>;
using dstr = wrapped_str<2>;
using dobj = wrapped_obj<2>;

template<typename T, typename A>
using vec_store = std::vector<T, A>;
template<typename T, typename A>
using deq_store = std::deque<T, A>;

using mobj_block = mdds::mtv::managed_element_block<60, mobj>;
using nobj_block = mdds::mtv::noncopyable_managed_element_block<61, nobj>;
using vint_block = mdds::mtv::default_element_block<62, vint, vec_store>;
using vstr_block = mdds::mtv::default_element_block<63, vstr, vec_store>;
using vobj_block = mdds::mtv::managed_element_block<64, vobj, vec_store>;
using dint_block = mdds::mtv::default_element_block<65, dint, deq_store>;
using dstr_block = mdds::mtv::default_element_block<66, dstr, deq_store>;
using dobj_block = mdds::mtv::managed_element_block<67, dobj, deq_store>;

using dnobj_block = mdds::mtv::noncopyable_managed_element_block<68, dnobj, deq_store>;

MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(dnobj, 68, nullptr, dnobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(mobj, 60, nullptr, mobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(nobj, 61, nullptr, nobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(vint, 62, vint(), vint_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(vstr, 63, vstr(), vstr_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(vobj, 64, nullptr, vobj_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(dint, 65, dint(), dint_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(dstr, 66, dstr(), dstr_block)
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(dobj, 67, nullptr, dobj_block)

/** three element types, called I, S and M */
template<typename IB, typename SB, typename MB>
struct type_set
{
    using iblock = IB;
    using sblock = SB;
    using mblock = MB;
    using I = typename IB::value_type;
    using S = typename SB::value_type;
    using M = typename MB::value_type; // pointer or plain
    static constexpr element_t id[] = {mdds::mtv::element_type_empty, IB::block_type, SB::block_type, MB::block_type};
    using funcs = mdds::mtv::element_block_funcs<IB, SB, MB>;
};

using set_std = type_set<mdds::mtv::int32_element_block, mdds::mtv::string_element_block, mobj_block>;
using set_nc = type_set<mdds::mtv::int32_element_block, mdds::mtv::string_element_block, nobj_block>;
using set_vec = type_set<vint_block, vstr_block, vobj_block>;
using set_deq = type_set<dint_block, dstr_block, dobj_block>;
using set_ncdeq = type_set<dint_block, dstr_block, dnobj_block>;
using set_bool = type_set<mdds::mtv::boolean_element_block, mdds::mtv::double_element_block, mdds::mtv::uint8_element_block>;

template<typename T>
T mkval(int id)
{
    if constexpr (std::is_pointer_v<T>)
        return new std::remove_pointer_t<T>(id);
    else if constexpr (std::is_same_v<T, std::string>)
        return "the string value number " + std::to_string(id);
    else if constexpr (std::is_same_v<T, bool>)
        return (id % 3) == 1;
    else if constexpr (std::is_arithmetic_v<T>)
        return T(id);
    else if constexpr (requires(T t) { t.v = std::string(); })
        return T{"the wrapped string value number " + std::to_string(id)};
    else
        return T{id};
}

template<typename T>
bool isval(const T& v, int id)
{
    if constexpr (std::is_pointer_v<T>)
        return v && v->get() == id;
    else
        return v == mkval<T>(id);
}

template<typename T>
void dropval(T& v)
{
    if constexpr (std::is_pointer_v<T>)
        delete v;
}

// ---- block events -----------------------------------------------------------

/** which blocks each event handler believes to be held */
struct ledger
{
    std::vector<std::pair<int, const base_element_block*>> held;
    std::int64_t events = 0;
    std::string error; // what a handler noticed (it may run inside a destructor)

    void err(const char* e)
    {
        if (error.empty())
            error = e;
    }
    int count(int id, const base_element_block* p) const
    {
        int n = 0;
        for (auto& h : held)
            n += h.first == id && h.second == p;
        return n;
    }
};

struct events
{
    static inline ledger* cur = nullptr;
    // reads the block, so that a notification for a destroyed block shows
    static inline std::size_t (*touch)(const base_element_block&) = nullptr;

    int id = 0;

    void element_block_acquired(const base_element_block* p)
    {
        if (!cur)
            return;
        if (!p)
            return cur->err("element_block_acquired() for a null block");
        if (touch)
            if (touch(*p) == std::size_t(-1))
                return cur->err("notification for something that is not a block of the container");
        ++cur->events;
        cur->held.emplace_back(id, p);
    }
    void element_block_released(const base_element_block* p)
    {
        if (!cur)
            return;
        if (!p)
            return cur->err("element_block_released() for a null block");
        if (touch)
            if (touch(*p) == std::size_t(-1))
                return cur->err("notification for something that is not a block of the container");
        ++cur->events;
        for (std::size_t i = 0; i < cur->held.size(); ++i)
            if (cur->held[i] == std::make_pair(id, p))
            {
                cur->held.erase(cur->held.begin() + i);
                return;
            }
        cur->err("element_block_released() for a block that was not acquired (or twice)");
    }
};

struct scoped_ledger
{
    ledger l;
    scoped_ledger(std::size_t (*touch)(const base_element_block&))
    {
        events::cur = &l;
        events::touch = touch;
    }
    ~scoped_ledger()
    {
        events::cur = nullptr;
        events::touch = nullptr;
    }
    void none() const
    {
        if (!l.error.empty())
            mc::fail(l.error);
        MC_CHECK(l.held.empty(), << l.held.size() << " block(s) acquired but never released after all containers are gone");
    }
};

// ---- configuration ------------------------------------------------------------

template<
    typename Set, mdds::mtv::lu_factor_t LU = mdds::mtv::lu_factor_t::lu16, bool Cow = false,
    typename Exec = mdds::mtv::default_exec_policy>
struct traits : mdds::mtv::default_traits
{
    using set = Set;
    using event_func = events;
    using block_funcs = typename Set::funcs;
    static constexpr mdds::mtv::lu_factor_t loop_unrolling = LU;
    static constexpr bool enable_cow = Cow;
    using exec_policy = Exec;
};

template<typename Tr>
using soa_t = mdds::mtv::soa::multi_type_vector<Tr>;
template<typename Tr>
using aos_t = mdds::mtv::aos::multi_type_vector<Tr>;

// ---- reference -----------------------------------------------------------------

struct cell
{
    int type = 0; // 0 empty, 1 I, 2 S, 3 M
    int id = 0;
    bool operator==(const cell&) const = default;
};

using cells = std::vector<cell>;

inline std::string show(const cells& r)
{
    std::string s = "[";
    for (auto& c : r)
    {
        s += "-ISM"[c.type];
        if (c.type)
            s += std::to_string(c.id);
        s += ' ';
    }
    if (s.size() > 1)
        s.pop_back();
    return s + "]";
}

struct run
{
    std::size_t pos, size;
    int type;
};

inline std::vector<run> runs(const cells& r)
{
    std::vector<run> v;
    for (std::size_t i = 0; i < r.size(); ++i)
        if (v.empty() || v.back().type != r[i].type)
            v.push_back({i, 1, r[i].type});
        else
            ++v.back().size;
    return v;
}

inline std::size_t run_of(const std::vector<run>& rs, std::size_t pos)
{
    std::size_t i = 0;
    while (i < rs.size() && rs[i].pos + rs[i].size <= pos)
        ++i;
    return i;
}

template<typename Cont, typename Tr>
struct model
{
    using C = Cont;
    using traits_type = Tr;
    using Set = typename Tr::set;
    using I = typename Set::I;
    using S = typename Set::S;
    using M = typename Set::M;
    using iterator = typename C::iterator;
    using const_iterator = typename C::const_iterator;
    static constexpr bool managed = std::is_pointer_v<M>;
    static constexpr bool cow = Tr::enable_cow;

    template<typename F>
    static decltype(auto) with_type(int type, F&& f)
    {
        if (type == 1)
            return f(static_cast<I*>(nullptr));
        if (type == 2)
            return f(static_cast<S*>(nullptr));
        return f(static_cast<M*>(nullptr));
    }

    static std::size_t touch(const base_element_block& b)
    {
        std::size_t n = 0;
        auto go = [&](auto* blk) {
            using B = std::remove_pointer_t<decltype(blk)>;
            n = B::size(b);
            if (n)
            {
                auto v = *B::cbegin(b);
                (void)v;
            }
        };
        element_t t = mdds::mtv::get_block_type(b);
        if (t == Set::iblock::block_type)
            go(static_cast<typename Set::iblock*>(nullptr));
        else if (t == Set::sblock::block_type)
            go(static_cast<typename Set::sblock*>(nullptr));
        else if (t == Set::mblock::block_type)
            go(static_cast<typename Set::mblock*>(nullptr));
        else
            return std::size_t(-1);
        return n;
    }

    static bool block_is(const base_element_block& b, const cells& r, const run& rn, std::string& why)
    {
        bool ok = true;
        auto go = [&](auto* blk) {
            using B = std::remove_pointer_t<decltype(blk)>;
            if (B::size(b) != rn.size)
            {
                why = "element block size " + std::to_string(B::size(b));
                ok = false;
                return;
            }
            std::size_t i = 0;
            for (auto it = B::cbegin(b); it != B::cend(b); ++it, ++i)
            {
                const typename B::value_type v = *it;
                ok &= isval<typename B::value_type>(v, r[rn.pos + i].id);
            }
            ok &= i == rn.size;
            if (!ok)
                why = "element values";
        };
        if (rn.type == 1)
            go(static_cast<typename Set::iblock*>(nullptr));
        else if (rn.type == 2)
            go(static_cast<typename Set::sblock*>(nullptr));
        else
            go(static_cast<typename Set::mblock*>(nullptr));
        return ok;
    }

    /** all ways to reach the elements of a block */
    template<typename B>
    static void block_access(B*, base_element_block& b, const cells& r, const run& rn, const std::string& ctx)
    {
        using T = typename B::value_type;
        const base_element_block& cb = b;
        constexpr bool bits = mdds::mtv::detail::has_std_vector_bool_store<B>::type::value;
        auto ok = [&](const T& v, std::size_t i, const char* w) {
            MC_CHECK(isval<T>(v, r[rn.pos + i].id), << ctx << w << " of element " << i << " of the block at " << rn.pos << " in " << show(r));
        };
        auto seq = [&](auto it, auto e, bool back, const char* w) {
            std::size_t i = 0;
            for (; it != e && i < rn.size; ++it, ++i)
                ok(*it, back ? rn.size - 1 - i : i, w);
            MC_CHECK(it == e && i == rn.size, << ctx << w << ": number of elements of the block at " << rn.pos << " in " << show(r));
        };
        MC_CHECK(B::size(cb) == rn.size, << ctx << "size() of the block at " << rn.pos << " in " << show(r));
        seq(B::begin(b), B::end(b), false, "begin()");
        seq(B::begin(cb), B::end(cb), false, "begin() const");
        seq(B::cbegin(b), B::cend(b), false, "cbegin()");
        seq(B::rbegin(b), B::rend(b), true, "rbegin()");
        seq(B::rbegin(cb), B::rend(cb), true, "rbegin() const");
        seq(B::crbegin(b), B::crend(b), true, "crbegin()");
        auto rg = B::range(b);
        seq(rg.begin(), rg.end(), false, "range()");
        auto crg = B::range(cb);
        seq(crg.begin(), crg.end(), false, "range() const");
        if constexpr (requires(typename B::store_type& s) { s.capacity(); })
            MC_CHECK(B::capacity(cb) >= rn.size, << ctx << "capacity() of the block at " << rn.pos << " in " << show(r));
        for (std::size_t i = 0; i < rn.size; ++i)
        {
            ok(B::get_value(cb, i), i, "get_value()");
            T v{};
            B::get_value(cb, i, v);
            ok(v, i, "get_value(v)");
            if constexpr (!bits)
            {
                ok(B::at(b, i), i, "at()");
                ok(B::at(cb, i), i, "at() const");
            }
            if constexpr (!bits && requires(typename B::store_type& s) { s.data(); })
                ok(B::data(b)[i], i, "data()");
            // writes through the block are seen by everybody
            if constexpr (!std::is_pointer_v<T>)
            {
                const T keep = *std::next(B::cbegin(cb), i), other = mkval<T>(77777);
                *std::next(B::begin(b), i) = other;
                MC_CHECK(B::get_value(cb, i) == other, << ctx << "write through begin() to element " << i);
                *std::next(B::rbegin(b), rn.size - 1 - i) = keep;
                ok(B::get_value(cb, i), i, "write through rbegin()");
                B::set_value(b, i, other);
                MC_CHECK(*std::next(B::cbegin(cb), i) == other, << ctx << "set_value() of element " << i);
                if constexpr (!bits)
                    B::at(b, i) = keep;
                else
                    B::set_value(b, i, keep);
                ok(B::get_value(cb, i), i, "write through at()");
            }
        }
        if constexpr (!bits)
            for (std::size_t far : {rn.size, std::size_t(-1)})
                for (int w = 0; w < 2; ++w)
                {
                    bool threw = false;
                    try
                    {
                        if (w)
                            B::at(b, far);
                        else
                            B::at(cb, far);
                    }
                    catch (const std::out_of_range&)
                    {
                        threw = true;
                    }
                    MC_CHECK(threw, << ctx << "at(" << far << ") of a block of " << rn.size << " elements does not throw");
                }
    }

    /** the same for all blocks of a container */
    static void access(C& c, const cells& r, const std::string& who)
    {
        auto rs = runs(r);
        std::size_t k = 0;
        for (auto it = c.begin(); it != c.end() && k < rs.size(); ++it, ++k)
        {
            if (rs[k].type == 1)
                block_access(static_cast<typename Set::iblock*>(nullptr), *it->data, r, rs[k], who + ": ");
            else if (rs[k].type == 2)
                block_access(static_cast<typename Set::sblock*>(nullptr), *it->data, r, rs[k], who + ": ");
            else if (rs[k].type == 3)
                block_access(static_cast<typename Set::mblock*>(nullptr), *it->data, r, rs[k], who + ": ");
        }
    }

    /** one node of a block iteration against the canonical run */
    template<typename Node>
    static void node(const Node& n, const cells& r, const run& rn, const std::string& ctx)
    {
        MC_CHECK(n.type == Set::id[rn.type], << ctx << "block at " << rn.pos << " has type " << n.type << " in " << show(r));
        MC_CHECK(
            n.position == rn.pos && n.size == rn.size,
            << ctx << "block at " << n.position << " of size " << n.size << ", expected at " << rn.pos << " of size " << rn.size
            << " in " << show(r));
        MC_CHECK((n.data == nullptr) == (rn.type == 0), << ctx << "block data at " << rn.pos << " in " << show(r));
        if (n.data)
        {
            MC_CHECK(mdds::mtv::get_block_type(*n.data) == n.type, << ctx << "block type of " << rn.pos << " in " << show(r));
            std::string why;
            if (!block_is(*n.data, r, rn, why))
                mc::fail(ctx + "block at " + std::to_string(rn.pos) + ": " + why + " differ from " + show(r));
        }
    }

    template<typename It>
    static void forward(It b, It e, const cells& r, const std::vector<run>& rs, const std::string& ctx)
    {
        std::size_t i = 0;
        for (; i < rs.size() && !(b == e); ++i, ++b)
        {
            node(*b, r, rs[i], ctx);
            MC_CHECK(b->position == rs[i].pos, << ctx << "operator->");
        }
        MC_CHECK(i == rs.size() && b == e, << ctx << "number of blocks iterated, expected " << rs.size() << " for " << show(r));
    }

    template<typename It>
    static void backward(It b, It e, const cells& r, const std::vector<run>& rs, const std::string& ctx)
    {
        std::size_t i = rs.size();
        while (i-- > 0)
        {
            MC_CHECK(!(b == e), << ctx << "backward iteration stops early");
            --e;
            node(*e, r, rs[i], ctx + "(backward) ");
        }
        MC_CHECK(b == e, << ctx << "backward iteration does not reach the first block");
    }

    template<typename It>
    static void reversed(It b, It e, const cells& r, const std::vector<run>& rs, const std::string& ctx)
    {
        for (std::size_t i = rs.size(); i-- > 0; ++b)
        {
            MC_CHECK(!(b == e), << ctx << "reverse iteration stops early");
            node(*b, r, rs[i], ctx + "(reverse) ");
        }
        MC_CHECK(b == e, << ctx << "reverse iteration goes on");
    }

    static void value(const C& c, const cells& r, std::size_t i, const std::string& ctx)
    {
        MC_CHECK(c.get_type(i) == Set::id[r[i].type], << ctx << "get_type(" << i << ") = " << c.get_type(i) << ", expected " << show(r));
        MC_CHECK(c.is_empty(i) == (r[i].type == 0), << ctx << "is_empty(" << i << "), expected " << show(r));
        if (!r[i].type)
            return;
        with_type(r[i].type, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            T v{};
            c.get(i, v);
            MC_CHECK(isval<T>(v, r[i].id), << ctx << "get(" << i << ", value), expected " << show(r));
            MC_CHECK(isval<T>(c.template get<T>(i), r[i].id), << ctx << "get<T>(" << i << "), expected " << show(r));
        });
    }

    /** everything observable about one container */
    static void check(C& c, const cells& r, const std::string& who)
    {
        const std::string ctx = who + ": ";
        const C& cc = c;
        MC_CHECK(cc.size() == r.size(), << ctx << "size " << cc.size() << ", expected " << show(r));
        MC_CHECK(cc.empty() == r.empty(), << ctx << "empty()");
        auto rs = runs(r);
        MC_CHECK(cc.block_size() == rs.size(), << ctx << cc.block_size() << " blocks, expected " << show(r));
        forward(cc.begin(), cc.end(), r, rs, ctx);
        backward(cc.cbegin(), cc.cend(), r, rs, ctx);
        reversed(cc.rbegin(), cc.rend(), r, rs, ctx);
        reversed(cc.crbegin(), cc.crend(), r, rs, ctx);
        if constexpr (!cow)
        {
            forward(c.begin(), c.end(), r, rs, ctx);
            backward(c.begin(), c.end(), r, rs, ctx);
            reversed(c.rbegin(), c.rend(), r, rs, ctx);
        }
        for (std::size_t i = 0; i < r.size(); ++i)
        {
            value(cc, r, i, ctx);
            std::size_t k = run_of(rs, i);
            auto p = cc.position(i);
            MC_CHECK(
                p.first->position == rs[k].pos && p.second == i - rs[k].pos,
                << ctx << "position(" << i << ") is block " << p.first->position << " offset " << p.second << " in " << show(r));
        }
#ifdef MTV_ACCESS
        access(c, r, who);
#endif
        auto pe = cc.position(r.size());
        MC_CHECK(pe.first == cc.end() && pe.second == 0, << ctx << "position(size) is not the end position");
    }

    /** the block an operation reports must be the one holding pos */
    static void returned(C& c, const iterator& it, std::size_t pos, const cells& r, const std::string& who)
    {
        auto rs = runs(r);
        std::size_t k = run_of(rs, pos);
        if (k == rs.size())
            return;
        const_iterator ci(it), e = std::as_const(c).end(), b = std::as_const(c).begin();
        MC_CHECK(!(ci == e), << who << " returned the end, expected the block at " << rs[k].pos << " in " << show(r));
        node(*it, r, rs[k], who + ", returned iterator: ");
        MC_CHECK(ci == std::as_const(c).position(pos).first, << who << ": the returned iterator is not equal to that of position(" << pos << ")");
        // it must be good for stepping in both directions
        auto f = it;
        for (std::size_t i = k; i < rs.size(); ++i, ++f)
            node(*f, r, rs[i], who + ", forward from the returned iterator: ");
        MC_CHECK(const_iterator(f) == e, << who << ": forward from the returned iterator to the end");
        auto g = it;
        for (std::size_t i = k; i-- > 0;)
        {
            --g;
            node(*g, r, rs[i], who + ", backward from the returned iterator: ");
        }
        MC_CHECK(const_iterator(g) == b, << who << ": backward from the returned iterator to the begin");
    }

    static void returned_end(C& c, const iterator& it, const std::string& who)
    {
        MC_CHECK(const_iterator(it) == std::as_const(c).end(), << who << " did not return the end iterator");
    }

    /** blocks held by the containers are exactly those acquired and not released */
    static void check_events(const ledger& l, std::initializer_list<const C*> cs)
    {
        if (!l.error.empty())
            mc::fail(l.error);
        std::vector<std::pair<int, const base_element_block*>> exp;
        for (const C* c : cs)
            for (auto it = c->begin(), e = c->end(); !(it == e); ++it)
                if (it->data)
                    exp.emplace_back(c->event_handler().id, it->data);
        auto have = l.held;
        std::sort(exp.begin(), exp.end());
        std::sort(have.begin(), have.end());
        if (exp != have)
            mc::fail(
                "block events do not match the blocks held: " + std::to_string(have.size()) + " acquired and not released, " +
                std::to_string(exp.size()) + " held" + (exp.size() == have.size() ? " (other blocks)" : ""));
    }

    /** every managed object alive is in a container or was released to the caller */
    static void check_live(std::initializer_list<const cells*> rs, std::size_t outside)
    {
        if constexpr (!managed)
            return;
        std::int64_t n = std::int64_t(outside);
        for (auto* r : rs)
            for (auto& c : *r)
                n += c.type == 3;
        MC_CHECK(mobj::live == n, << mobj::live << " managed elements alive, " << n << " expected");
    }

    // ---- building ----

    static iterator append(C& c, cells& r, int type, int& id)
    {
        r.push_back({type, type ? ++id : 0});
        if (!type)
            return c.push_back_empty();
        return with_type(type, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            return c.push_back(mkval<T>(r.back().id));
        });
    }

    /** a container of any shape: length, then the type of every element */
    static void choose_shape(C& c, cells& r, int maxlen, int types, int& id)
    {
        int n = mc::choose(maxlen + 1);
        for (int i = 0; i < n; ++i)
            append(c, r, mc::choose(types), id);
    }

    /** the same shape, built in another way (runs through range insertion from the back) */
    static void rebuild(C& c, const cells& r)
    {
        auto rs = runs(r);
        c.resize(r.size());
        for (std::size_t k = rs.size(); k-- > 0;)
            if (rs[k].type)
                with_type(rs[k].type, [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    std::vector<T> v;
                    for (std::size_t i = 0; i < rs[k].size; ++i)
                        v.push_back(mkval<T>(r[rs[k].pos + i].id));
                    c.set(rs[k].pos, v.begin(), v.end());
                });
    }
};

} // namespace mtvh
