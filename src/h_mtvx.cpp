// soa multi_type_vector with an execution policy that processes blocks and elements in every order
#include "mc.hpp"

#include <algorithm>
#include <numeric>
#include <optional>
#include <vector>

namespace mtvh {

/** an execution policy: the order is chosen by the explorer, nothing is skipped */
struct any_order
{};

inline std::int64_t policy_calls = 0;
inline bool permute = true; // false: in order, without a choice

template<typename F>
void in_any_order(std::size_t n, F&& f)
{
    ++policy_calls;
    if (!permute)
    {
        for (std::size_t i = 0; i < n; ++i)
            f(i);
        return;
    }
    std::vector<std::size_t> left(n);
    std::iota(left.begin(), left.end(), std::size_t(0));
    // every permutation of up to 4 elements; rotations in both directions of more
    std::size_t rot = 0;
    bool back = false;
    if (n > 4)
    {
        rot = mc::choose(int(n));
        back = mc::flip();
    }
    while (!left.empty())
    {
        std::size_t m = left.size();
        std::size_t k = n > 4 ? (back ? (rot + m - 1) % m : rot % m) : m > 1 ? mc::choose(int(m)) : 0;
        std::size_t i = left[k];
        left.erase(left.begin() + k);
        f(i);
    }
}

} // namespace mtvh

namespace std {

template<typename It, typename Out, typename Op>
Out transform(mtvh::any_order, It b, It e, Out o, Op op)
{
    auto n = std::distance(b, e);
    mtvh::in_any_order(n, [&](std::size_t i) {
        Op mine(op); // a policy may copy the function object
        *std::next(o, i) = mine(*std::next(b, i));
    });
    return std::next(o, n);
}

template<typename It, typename It2, typename Out, typename Op>
Out transform(mtvh::any_order, It b, It e, It2 b2, Out o, Op op)
{
    auto n = std::distance(b, e);
    mtvh::in_any_order(n, [&](std::size_t i) {
        Op mine(op);
        *std::next(o, i) = mine(*std::next(b, i), *std::next(b2, i));
    });
    return std::next(o, n);
}

template<typename It, typename F>
void for_each(mtvh::any_order, It b, It e, F f)
{
    mtvh::in_any_order(std::distance(b, e), [&](std::size_t i) {
        F mine(f);
        mine(*std::next(b, i));
    });
}

template<typename It, typename N, typename F>
It for_each_n(mtvh::any_order p, It b, N n, F f)
{
    std::for_each(p, b, std::next(b, n), f);
    return std::next(b, n);
}

template<typename It, typename It2, typename P>
bool equal(mtvh::any_order, It b, It e, It2 b2, P pred)
{
    bool res = true;
    mtvh::in_any_order(std::distance(b, e), [&](std::size_t i) { res &= bool(pred(*std::next(b, i), *std::next(b2, i))); });
    return res;
}

template<typename It, typename It2, typename P>
    requires(!std::is_same_v<It2, P>)
bool equal(mtvh::any_order p, It b, It e, It2 b2, It2 e2, P pred)
{
    return std::distance(b, e) == std::distance(b2, e2) && std::equal(p, b, e, b2, pred);
}

template<typename It, typename P>
bool all_of(mtvh::any_order, It b, It e, P pred)
{
    bool res = true;
    mtvh::in_any_order(std::distance(b, e), [&](std::size_t i) { res &= bool(pred(*std::next(b, i))); });
    return res;
}

template<typename It, typename P>
bool any_of(mtvh::any_order, It b, It e, P pred)
{
    bool res = false;
    mtvh::in_any_order(std::distance(b, e), [&](std::size_t i) { res |= bool(pred(*std::next(b, i))); });
    return res;
}

template<typename It, typename P>
bool none_of(mtvh::any_order p, It b, It e, P pred)
{
    return !std::any_of(p, b, e, pred);
}

} // namespace std

#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#define MTV_NO_SCENARIOS
#include "mtv_pair.inc"

namespace mtvh {

/** cloned under an execution policy */
struct pobj : mobj
{
    using mobj::mobj;
    pobj(const pobj&) = delete;
};

} // namespace mtvh

namespace mdds { namespace mtv {

template<>
struct clone_value<mtvh::pobj*>
{
    using exec_policy = mtvh::any_order;
    mtvh::pobj* operator()(const mtvh::pobj* p) const
    {
        return new mtvh::pobj(p->get());
    }
};

}} // namespace mdds::mtv

namespace mtvh {
using pobj_block = mdds::mtv::noncopyable_managed_element_block<70, pobj>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(pobj, 70, nullptr, pobj_block)
using set_pol = type_set<mdds::mtv::int32_element_block, mdds::mtv::string_element_block, pobj_block>;
} // namespace mtvh

namespace {

template<typename Set, typename Exec = any_order>
using ptraits = traits<Set, mdds::mtv::lu_factor_t::lu16, false, Exec>;

/** clone under the policies of the container and of the elements, comparison, then an operation on either */
template<typename Exec>
void clones(int n)
{
    using Tr = ptraits<set_pol, Exec>;
    using Md = md<Tr>;
    using C = typename Md::C;
    scoped_ledger led(&Md::touch);
    int id = 0;
    cells r, q;
    std::size_t outside = 0;
    permute = true; // an earlier execution may have been left half way
    {
        C c(events{0});
        Md::choose_shape(c, r, n, 4, id);
        MC_NOTE("  clone of " << show(r));
        bool handler = mc::flip();
        const int phase = mc::choose(3); // what runs in every order: the clone, the comparisons, shrink_to_fit
        permute = phase == 0;
        auto calls = policy_calls;
        C d(handler ? c.clone(events{7}) : c.clone());
        if (!r.empty() && (!std::is_same_v<Exec, mdds::mtv::default_exec_policy> || r[0].type == 3))
            mc::count(policy_calls > calls ? "clones under a policy" : "clones without using the policy");
        q = r;
        mc::transition();
        Md::check(c, r, "source after clone");
        Md::check(d, q, "clone");
        Md::check_events(led.l, {&c, &d});
        Md::check_live({&r, &q}, 0);
        permute = phase == 1;
        MC_CHECK(std::as_const(c) == d, << "a clone differs from " << show(r));
        if (!q.empty())
        {
            int pos = mc::choose(int(q.size()));
            d.set(pos, mkval<typename Md::I>(1000));
            q[pos] = {1, 1000};
            MC_NOTE("  set " << pos << " of the clone, == ");
            MC_CHECK(std::as_const(c) != d, << "a changed clone is equal to " << show(r));
            Md::check(c, r, "source after a change of its clone");
            Md::check(d, q, "changed clone");
        }
        permute = phase == 2;
        d.shrink_to_fit();
        permute = true;
        Md::check(d, q, "clone after shrink_to_fit");
        Md::check_events(led.l, {&c, &d});
        Md::check_live({&r, &q}, outside);
        mc::fp f;
        for (auto& x : q)
            f.add(x.type);
        mc::state(f.get());
    }
    led.none();
    Md::check_live({}, outside);
}

} // namespace

MC_SCENARIO(
    soa_policy_copy, "every shape (and of the destination) x every way to copy, clone, move, assign and swap under a policy "
                     "that processes the blocks in every order, then every operation on either container",
    {"n", 3, 4, 2, 3}, {"m", 1, 1, 1, 1}, {"split", 4, 4, 4, 4})
{
    permute = true;
    copies<ptraits<set_std>>(mc::param("n"), mc::param("m"), true);
}

MC_SCENARIO(
    soa_policy_copy2, "as soa_policy_copy for longer containers, without the further operation", {"n", 5, 6, 3, 4}, {"m", 2, 2, 1, 1},
    {"split", 4, 4, 4, 4})
{
    permute = true;
    copies<ptraits<set_std>>(mc::param("n"), mc::param("m"), false);
}

MC_SCENARIO(
    soa_policy_clone, "every shape x clone under element and container policies in every order, comparison, change, shrink_to_fit",
    {"n", 4, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    clones<any_order>(mc::param("n"));
}

MC_SCENARIO(
    soa_policy_value, "as soa_policy_clone with a policy for the elements only", {"n", 5, 6, 3, 4}, {"split", 4, 4, 4, 4})
{
    clones<mdds::mtv::default_exec_policy>(mc::param("n"));
}

MC_SCENARIO(
    soa_policy_equal, "equality of all pairs of contents, blocks compared in every order", {"n", 3, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    permute = true;
    equal<ptraits<set_bool>>(mc::param("n"), false);
}

MC_SCENARIO(
    soa_policy_step, "every shape x every operation under the policy", {"n", 4, 5, 2, 3}, {"split", 5, 5, 5, 5})
{
    permute = true;
    using Tr = ptraits<set_bool>;
    using Md = md<Tr>;
    scoped_ledger led(&Md::touch);
    std::size_t outside = 0;
    int id = 0;
    cells r;
    {
        typename Md::C c(events{0});
        Md::choose_shape(c, r, mc::param("n"), 4, id);
        op_bounds b;
        b.max_len = 2;
        b.hints = false;
        ops<Md> o{c, r, id, outside, b, {}, false};
        o.step();
        Md::check(c, r, "after " + o.what);
        Md::check_events(led.l, {&c});
        mc::fp f;
        for (auto& x : r)
            f.add(x.type);
        mc::state(f.get());
    }
    led.none();
}
