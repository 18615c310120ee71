// Two-container scenarios; the including file defines container<Tr> and the scenario prefix.
#include "mtv_ops.hpp"

namespace {

using namespace mtvh;

#ifndef MTV_MD
#define MTV_MD
template<typename Tr>
using md = model<container<Tr>, Tr>;
#endif

/** transfer or swap of a range between two containers, every parameter, also out of range */
template<typename Md>
struct range_op
{
    typename Md::C &c, &d;
    cells &r, &q;
    int extra;
    bool hints;
    std::string what;

    void step()
    {
        const int n = int(r.size()), m = int(q.size());
        bool tr = mc::flip();
        int s = mc::choose(std::max(1, n + extra)), e = mc::choose(std::max(1, n + extra));
        int p = mc::choose(std::max(1, m + extra));
        what = (tr ? "transfer " : "swap ") + std::to_string(s) + ".." + std::to_string(e) + " with position " + std::to_string(p);
        int hint = 0;
        if constexpr (!Md::cow)
            if (tr && hints)
            {
                int nb = int(runs(r).size());
                hint = mc::choose(nb + 2);
                if (hint)
                    what += " (hint: block " + std::to_string(hint - 1) + " of " + std::to_string(nb) + ")";
            }
        MC_NOTE("  " << what << ", " << show(r) << " and " << show(q));
        bool out = s > e || e >= n || p + (e - s) >= m, threw = false;
        typename Md::iterator ret;
        try
        {
            if (!tr)
                c.swap(s, e, d, p);
            else if (hint)
            {
                if constexpr (!Md::cow)
                    ret = c.transfer(std::next(c.begin(), hint - 1), s, e, d, p);
            }
            else
                ret = c.transfer(s, e, d, p);
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        mc::transition();
        MC_CHECK(threw == out, << what << (threw ? " throws" : " does not throw") << ", " << show(r) << " and " << show(q));
        if (threw)
            return;
        for (int i = 0; i <= e - s; ++i)
            if (tr)
            {
                q[p + i] = r[s + i];
                r[s + i] = {};
            }
            else
                std::swap(r[s + i], q[p + i]);
        if (tr)
            Md::returned(c, ret, s, r, what);
    }
};

template<typename Tr>
void pairs(int n, int m, int types, int nops)
{
    using Md = md<Tr>;
    scoped_ledger led(&Md::touch);
    int id = 0;
    cells r, q;
    {
        typename Md::C c(events{0}), d(events{1});
        Md::choose_shape(c, r, n, types, id);
        Md::choose_shape(d, q, m, types, id);
        for (int i = 0; i < nops; ++i)
        {
            range_op<Md> o{c, d, r, q, 1, true, {}};
            if (i && mc::flip()) // the other way round
            {
                range_op<Md> o2{d, c, q, r, 0, false, {}};
                o2.step();
                o.what = o2.what;
            }
            else
                o.step();
            if (mc::fresh())
            {
                Md::check(c, r, "first container after " + o.what);
                Md::check(d, q, "second container after " + o.what);
                Md::check_events(led.l, {&c, &d});
                Md::check_live({&r, &q}, 0);
            }
        }
        mc::fp f;
        for (auto& x : r)
            f.add(x.type);
        f.add(99);
        for (auto& x : q)
            f.add(x.type);
        mc::state(f.get());
    }
    led.none();
    Md::check_live({}, 0);
}

bool throws_noncopyable(const cells& r, bool noncopyable)
{
    bool b = false;
    for (auto& x : r)
        b |= noncopyable && x.type == 3;
    return b;
}

/** every way of copying or moving a whole container, then an operation on either */
template<typename Tr, bool Noncopyable = false>
void copies(int n, int m, bool more)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    scoped_ledger led(&Md::touch);
    int id = 0;
    cells r, q;
    std::size_t outside = 0;
    {
        C c(events{0});
        std::optional<C> d;
        Md::choose_shape(c, r, n, 4, id);
        std::string what;
        int way = mc::choose(12);
        bool fails = false;
        auto attempt = [&](auto&& f) {
            MC_NOTE("  " << what << " of " << show(r) << " to " << show(q));
            bool exp = throws_noncopyable(r, Noncopyable), threw = false;
            try
            {
                f();
            }
            catch (const mdds::mtv::element_block_error&)
            {
                threw = true;
            }
            MC_CHECK(threw == exp, << what << (threw ? " throws" : " does not throw") << " for " << show(r));
            if (!threw)
                q = r;
            fails = threw;
        };
        auto other = [&] {
            d.emplace(events{1});
            Md::choose_shape(*d, q, m, 4, id);
        };
        switch (way)
        {
            case 0:
                what = "copy construction";
                attempt([&] { d.emplace(c); });
                break;
            case 1:
                what = "clone";
                MC_NOTE("  clone of " << show(r));
                d.emplace(c.clone());
                q = r;
                break;
            case 2:
                what = "clone with event handler";
                if constexpr (requires { c.clone(events{7}); })
                {
                    MC_NOTE("  clone (handler) of " << show(r));
                    d.emplace(c.clone(events{7}));
                    MC_CHECK(d->event_handler().id == 7, << "clone(handler) does not use the handler");
                    q = r;
                    break;
                }
                throw mc::prune();
            case 3:
                what = "copy assignment";
                other();
                attempt([&] { *d = c; });
                break;
            case 4:
                what = "move construction";
                MC_NOTE("  move construction from " << show(r));
                d.emplace(std::move(c));
                q = r;
                r.clear();
                break;
            case 5:
                what = "move assignment";
                other();
                MC_NOTE("  move assignment from " << show(r) << " to " << show(q));
                *d = std::move(c);
                q = r;
                r.clear();
                break;
            case 6:
            case 7:
                what = way == 6 ? "member swap" : "std::swap";
                other();
                MC_NOTE("  swap of " << show(r) << " and " << show(q));
                if (way == 6)
                    c.swap(*d);
                else
                {
                    using std::swap;
                    swap(c, *d);
                }
                std::swap(r, q);
                break;
            case 8:
            {
                what = "self copy assignment";
                C& self = c;
                bool exp = throws_noncopyable(r, Noncopyable);
                MC_NOTE("  self copy assignment of " << show(r));
                try
                {
                    c = self;
                    MC_CHECK(!exp, << "self copy assignment of a noncopyable element does not throw");
                }
                catch (const mdds::mtv::element_block_error&)
                {
                    MC_CHECK(exp, << "self copy assignment throws for " << show(r));
                }
                break;
            }
            case 9:
            {
                what = "self move assignment";
                C& self = c;
                MC_NOTE("  self move assignment of " << show(r));
                c = std::move(self);
                break;
            }
            case 10:
            {
                what = "self swap";
                MC_NOTE("  self swap of " << show(r));
                c.swap(c);
                break;
            }
            case 11:
                what = "move out and back";
                MC_NOTE("  move out and back of " << show(r));
                {
                    C t(std::move(c));
                    if (mc::flip())
                        c.push_back_empty(); // a moved-from container is usable
                    c = std::move(t);
                    if (mc::fresh())
                        Md::check(t, {}, "moved-from container");
                }
                break;
        }
        mc::transition();
        if (!d)
            d.emplace(events{1});
        if (fails && !d->size())
            q.clear();
        auto check = [&](const std::string& w) {
            Md::check(c, r, "source after " + w);
            Md::check(*d, q, "destination after " + w);
            Md::check_events(led.l, {&c, &*d});
            Md::check_live({&r, &q}, outside);
        };
        if (mc::fresh())
        {
            check(what);
            if (!std::is_pointer_v<typename Md::M>)
                MC_CHECK((c == *d) == (r == q), << "== after " << what);
        }
        if (more)
        {
            op_bounds b;
            b.max_len = 2;
            b.hints = false;
            b.extra = 0;
            bool first = mc::flip();
            ops<Md> o{first ? c : *d, first ? r : q, id, outside, b, {}, false};
            o.step();
            if (mc::fresh())
                check(what + ", then " + o.what + (first ? " on the source" : " on the destination"));
        }
        mc::fp f;
        for (auto& x : r)
            f.add(x.type);
        f.add(99 + way);
        for (auto& x : q)
            f.add(x.type);
        mc::state(f.get());
        if (mc::flip()) // destroy in the other order
        {
            C t(std::move(c));
        }
    }
    led.none();
    Md::check_live({}, outside);
}

/** equality over all pairs of contents */
template<typename Tr>
void equal(int n, bool with_m)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    cells r, q;
    {
        C c(events{0}), d(events{0});
        auto fill = [&](C& x, cells& y, bool back) {
            int len = mc::choose(n + 1);
            for (int i = 0; i < len; ++i)
            {
                int k = mc::choose(with_m ? 7 : 5);
                y.push_back({(k + 1) / 2, k ? 1 + (k + 1) % 2 : 0});
            }
            if (back)
                Md::rebuild(x, y);
            else
                for (auto& e : y)
                    if (!e.type)
                        x.push_back_empty();
                    else
                        Md::with_type(e.type, [&](auto* t) { x.push_back(mkval<std::remove_pointer_t<decltype(t)>>(e.id)); });
        };
        fill(c, r, false);
        fill(d, q, true);
        MC_NOTE(show(r) << " == " << show(q));
        const C &cc = c, &dd = d;
        MC_CHECK((cc == dd) == (r == q), << show(r) << " == " << show(q) << " gives " << (cc == dd));
        MC_CHECK((dd == cc) == (r == q), << show(q) << " == " << show(r) << " gives " << (dd == cc));
        MC_CHECK((cc != dd) == (r != q), << "!=");
        MC_CHECK(cc == cc, << "a container is not equal to itself");
        mc::transition();
        mc::fp f;
        for (auto& x : r)
            f.add(x.type);
        f.add(99);
        for (auto& x : q)
            f.add(x.type);
        mc::state(f.get());
    }
    Md::check_live({}, 0);
}

/** positions: lookups with every hint, stepping any distance, typed access */
template<typename Tr>
void positions(int n)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    using Set = typename Tr::set;
    int id = 0;
    cells r;
    C c(events{0});
    Md::choose_shape(c, r, n, 4, id);
    MC_NOTE(show(r));
    const C& cc = c;
    auto rs = runs(r);
    int len = int(r.size());
    auto at = [&](auto& x, const auto& p, int i, const char* w) {
        std::size_t k = run_of(rs, i);
        if (i == len)
            MC_CHECK(typename Md::const_iterator(p.first) == cc.end() && p.second == 0, << w << ": end position expected in " << show(r));
        else
        {
            MC_CHECK(
                p.first->position == rs[k].pos && p.second == i - rs[k].pos,
                << w << ": position of " << i << " expected, is block at " << p.first->position << " offset " << p.second << " in " << show(r));
            MC_CHECK(C::logical_position(p) == std::size_t(i), << w << ": logical_position()");
        }
        (void)x;
    };
    auto all = [&](auto& x) {
        for (int i = 0; i <= len; ++i)
        {
            auto p = x.position(i);
            at(x, p, i, "position");
            mc::transition();
            auto h = x.begin();
            for (std::size_t k = 0; k <= rs.size(); ++k)
            {
                at(x, x.position(h, i), i, "position with hint");
                if (k < rs.size())
                    ++h;
            }
            if (i < len)
            {
                at(x, C::next_position(p), i + 1, "next_position");
                if (r[i].type == 1)
                    MC_CHECK(isval<typename Md::I>(C::template get<typename Set::iblock>(p), r[i].id), << "get<block>(position)");
                else if (r[i].type == 2)
                    MC_CHECK(isval<typename Md::S>(C::template get<typename Set::sblock>(p), r[i].id), << "get<block>(position)");
                else if (r[i].type == 3)
                    MC_CHECK(isval<typename Md::M>(C::template get<typename Set::mblock>(p), r[i].id), << "get<block>(position)");
            }
            for (int j = 0; j <= len; ++j)
            {
                at(x, C::advance_position(p, j - i), j, "advance_position");
                mc::transition();
            }
        }
        for (std::size_t far : {std::size_t(len) + 1, std::size_t(-1), std::size_t(-1) / 2})
        {
            auto rejected = [&](auto&& f, const char* w) {
                try
                {
                    f();
                }
                catch (const std::out_of_range&)
                {
                    return;
                }
                mc::fail(std::string(w) + " beyond the end does not throw for " + show(r));
            };
            rejected([&] { x.position(far); }, "position");
            auto h = x.begin();
            for (std::size_t k = 0; k <= rs.size(); ++k)
            {
                rejected([&] { x.position(h, far); }, "position with hint");
                if (k < rs.size())
                    ++h;
            }
            rejected([&] { cc.get_type(far); }, "get_type");
            rejected([&] { cc.is_empty(far); }, "is_empty");
            rejected([&] { cc.template get<typename Md::I>(far); }, "get");
        }
    };
    all(cc);
    if constexpr (!Md::cow)
        all(c);
    for (int i = 0; i < len; ++i)
        for (auto far : {std::size_t(len), std::size_t(-1)})
            for (int w = 0; w < 3; ++w)
            {
                bool threw = false;
                try
                {
                    if (w == 0)
                        cc.get_type(far);
                    else if (w == 1)
                        cc.is_empty(far);
                    else
                        cc.template get<typename Md::S>(far);
                }
                catch (const std::out_of_range&)
                {
                    threw = true;
                }
                MC_CHECK(threw, << "element access at " << far << " does not throw for " << show(r));
            }
}

/** constructors with content */
template<typename Tr>
void constructors(int n)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    scoped_ledger led(&Md::touch);
    cells r;
    {
        int size = mc::choose(n + 1), way = mc::choose(5), type = 1 + mc::choose(3);
        std::string what = "constructor " + std::to_string(way) + " size " + std::to_string(size) + " type " + std::to_string(type);
        MC_NOTE(what);
        Md::with_type(type, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            if (way == 0)
            {
                C c(size);
                r.resize(size);
                Md::check(c, r, what);
                Md::check_events(led.l, {&c});
            }
            else if (way == 1)
            {
                if (std::is_pointer_v<T>)
                    return; // managed blocks are not initialized with a shared value
                T v = mkval<T>(5);
                C c(size, v);
                r.assign(size, {type, 5});
                Md::check(c, r, what);
                Md::check_events(led.l, {&c});
            }
            else
            {
                int len = way == 2 ? size : way == 3 ? size + 1 : std::max(0, size - 1);
                std::vector<T> v;
                for (int i = 0; i < len; ++i)
                    v.push_back(mkval<T>(i + 1));
                bool threw = false;
                try
                {
                    C c(size, v.begin(), v.end());
                    for (int i = 0; i < size && i < len; ++i)
                        r.push_back({type, i + 1});
                    Md::check(c, r, what);
                    Md::check_events(led.l, {&c});
                    Md::check_live({&r}, size ? 0 : std::is_pointer_v<T> ? len : 0);
                    if (!size)
                        for (auto& x : v)
                            dropval(x);
                }
                catch (const mdds::invalid_arg_error&)
                {
                    threw = true;
                    for (auto& x : v)
                        dropval(x);
                }
                MC_CHECK(threw == (size && size != len), << what << (threw ? " throws" : " does not throw"));
            }
            mc::transition();
        });
    }
    led.none();
    Md::check_live({}, 0);
}

} // namespace

#ifndef MTV_NO_SCENARIOS

MC_SCENARIO(
    MTV(pair), "every pair of shapes over all element types x transfer (with every hint) and swap of every range to every "
               "position, in and out of range",
    {"n", 3, 4, 2, 3}, {"split", 5, 5, 5, 5})
{
    pairs<traits<set_std>>(mc::param("n"), mc::param("n"), 4, 1);
}

MC_SCENARIO(
    MTV(pair3), "as pair with three element types and longer containers",
    {"n", 4, 5, 2, 3}, {"m", 4, 5, 3, 4}, {"split", 5, 5, 5, 5})
{
    pairs<traits<set_std>>(mc::param("n"), mc::param("m"), 3, 1);
}

MC_SCENARIO(
    MTV(pairs), "every pair of shapes x two range operations between the containers",
    {"n", 2, 3, 1, 2}, {"m", 2, 2, 2, 2}, {"split", 5, 5, 5, 5})
{
    pairs<traits<set_std>>(mc::param("n"), mc::param("m"), 4, 2);
}

MC_SCENARIO(
    MTV(copy), "every shape (and every shape of the destination) x every way to copy, clone, move, assign and swap, then "
               "every operation on either container",
    {"n", 3, 4, 2, 2}, {"m", 1, 1, 1, 1}, {"split", 4, 4, 4, 4})
{
    copies<traits<set_std>>(mc::param("n"), mc::param("m"), true);
}

MC_SCENARIO(
    MTV(copy2), "as copy with larger destinations and without the further operation", {"n", 4, 5, 2, 3}, {"m", 4, 5, 2, 3},
    {"split", 4, 4, 4, 4})
{
    copies<traits<set_std>>(mc::param("n"), mc::param("m"), false);
}

MC_SCENARIO(
    MTV(clone), "as copy for elements that cannot be copied, only cloned", {"n", 3, 4, 2, 2}, {"m", 1, 1, 1, 1},
    {"split", 4, 4, 4, 4})
{
    copies<traits<set_nc>, true>(mc::param("n"), mc::param("m"), true);
}

MC_SCENARIO(MTV(equal), "equality of all pairs of contents", {"n", 4, 5, 3, 3}, {"split", 4, 4, 4, 4})
{
    equal<traits<set_bool>>(mc::param("n"), false);
}

MC_SCENARIO(MTV(equal_nc), "equality of all pairs of contents with objects compared by value", {"n", 3, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    equal<traits<set_nc>>(mc::param("n"), true);
}

MC_SCENARIO(
    MTV(position), "every shape x every position lookup with every hint x every stepping distance", {"n", 6, 8, 4, 6},
    {"split", 4, 4, 4, 4})
{
    positions<traits<set_std>>(mc::param("n"));
}

MC_SCENARIO(MTV(construct), "every constructor with every size, type and matching or wrong value count", {"n", 8, 40, 8, 40})
{
    constructors<traits<set_std>>(mc::param("n"));
}

#endif
