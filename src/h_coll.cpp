// mtv::collection: sideways traversal of several multi_type_vector instances
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>

#include <limits>
#include <list>
#include <memory>

namespace {

namespace m = mdds::mtv;

struct tr : m::default_traits
{
    using block_funcs = m::element_block_funcs<m::int32_element_block, m::string_element_block, m::boolean_element_block>;
};

using soa = m::soa::multi_type_vector<tr>;
using aos = m::aos::multi_type_vector<tr>;

std::string text(int id)
{
    return "the string value number " + std::to_string(id);
}

bool flag(int id)
{
    return id % 3 == 1;
}

constexpr std::size_t npos = std::numeric_limits<std::size_t>::max();

template<typename C>
struct fixture
{
    using coll = m::collection<C>;
    using grid = std::vector<std::vector<int>>; // types, vector by vector

    grid g;
    std::vector<std::unique_ptr<C>> v;

    static int id(std::size_t vec, std::size_t pos)
    {
        return int(vec * 16 + pos + 1);
    }

    static void put(C& c, std::size_t vec, std::size_t pos, int type)
    {
        switch (type)
        {
            case 0:
                c.set_empty(pos, pos);
                break;
            case 1:
                c.set(pos, std::int32_t(id(vec, pos)));
                break;
            case 2:
                c.set(pos, text(id(vec, pos)));
                break;
            default:
                c.set(pos, flag(id(vec, pos)));
        }
    }

    void build(std::size_t n, std::size_t len, int types)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            g.emplace_back();
            v.push_back(std::make_unique<C>(len));
            for (std::size_t j = 0; j < len; ++j)
            {
                g[i].push_back(mc::choose(types));
                put(*v[i], i, j, g[i][j]);
            }
        }
    }

    void check_node(const typename coll::const_iterator::value_type& nd, std::size_t vec, std::size_t pos, const char* what) const
    {
        static const m::element_t ids[] = {
            m::element_type_empty, m::element_type_int32, m::element_type_string, m::element_type_boolean};
        int t = g[vec][pos];
        MC_CHECK(nd.index == vec, << what << ": index " << nd.index << " instead of " << vec << " (position " << pos << ")");
        MC_CHECK(nd.position == pos, << what << ": position " << nd.position << " instead of " << pos << " (vector " << vec << ")");
        MC_CHECK(nd.type == ids[t], << what << ": type " << nd.type << " instead of " << ids[t] << " at " << vec << "," << pos);
        int n = id(vec, pos);
        bool ok = true;
        switch (t)
        {
            case 1:
                ok = nd.template get<m::int32_element_block>() == n;
                break;
            case 2:
                ok = nd.template get<m::string_element_block>() == text(n);
                break;
            case 3:
                ok = nd.template get<m::boolean_element_block>() == flag(n);
                break;
        }
        MC_CHECK(ok, << what << ": wrong value at " << vec << "," << pos);
    }

    /** er: element range, cr: collection range (start, size) */
    void traverse(const coll& c, std::size_t e0, std::size_t en, std::size_t c0, std::size_t cn, const char* what, int how = 0) const
    {
        MC_CHECK(c.size() == (g.empty() ? 0 : g[0].size()), << what << ": size " << c.size());
        auto it = c.begin(), end = c.end();
        MC_CHECK(c.begin() == it && c.end() == end, << what << ": begin() or end() differ between calls");
        for (std::size_t e = e0; e < e0 + en; ++e)
            for (std::size_t k = c0; k < c0 + cn; ++k)
            {
                MC_CHECK(!(it == end) && it != end, << what << ": the end is reached before position " << e << " of vector " << k);
                check_node(*it, k, e, what);
                if (how == 0)
                {
                    MC_CHECK(it->index == k && it->position == e, << what << ": operator->");
                    ++it;
                }
                else if (how == 1)
                {
                    auto old = it;
                    auto ret = it++;
                    MC_CHECK(ret == old && !(ret == it), << what << ": it++ does not return the previous position");
                    check_node(*ret, k, e, "the iterator returned by it++");
                    // the copy goes on independently
                    ++old;
                    MC_CHECK(old == it, << what << ": a copied iterator moves differently");
                }
                else
                {
                    typename coll::const_iterator cp;
                    cp = it;
                    check_node(*cp, k, e, "assigned iterator");
                    auto& r = ++cp;
                    MC_CHECK(&r == &cp, << what << ": ++it does not return the iterator");
                    check_node(*it, k, e, "iterator whose copy moved");
                    it = std::move(cp);
                }
            }
        MC_CHECK(it == end && !(it != end), << what << ": elements after the end, at " << it->index << "," << it->position);
    }

    template<typename It>
    static coll make(It b, It e)
    {
        return coll(b, e);
    }

    /** the collection over vectors [0, n) given in one of several ways */
    template<typename F>
    void with(int kind, F f)
    {
        switch (kind)
        {
            case 0: {
                std::vector<const C*> p;
                for (auto& x : v)
                    p.push_back(x.get());
                f(make(p.begin(), p.end()));
                break;
            }
            case 1:
                f(make(v.begin(), v.end()));
                break;
            case 2: {
                std::list<std::shared_ptr<C>> p;
                for (auto& x : v)
                    p.push_back(std::make_shared<C>(*x));
                f(make(p.begin(), p.end()));
                break;
            }
            case 3: {
                std::vector<C> p;
                for (auto& x : v)
                    p.push_back(*x);
                f(make(p.begin(), p.end()));
                break;
            }
            default: {
                std::vector<C*> p;
                for (auto& x : v)
                    p.push_back(x.get());
                const std::vector<C*>& cp = p;
                f(make(cp.begin(), cp.end()));
            }
        }
    }

    void all_ranges(coll& c, const char* what)
    {
        std::size_t n = g.size(), len = g[0].size();
        int how = 0;
        for (std::size_t e0 = 0; e0 < len; ++e0)
            for (std::size_t en = 1; e0 + en <= len; ++en)
                for (std::size_t c0 = 0; c0 < n; ++c0)
                    for (std::size_t cn = 1; c0 + cn <= n; ++cn)
                    {
                        c.set_element_range(e0, en);
                        c.set_collection_range(c0, cn);
                        traverse(c, e0, en, c0, cn, what, how);
                        how = (how + 1) % 3;
                        mc::count("ranges");
                    }
    }

    void bad_ranges(coll& c, std::size_t e0, std::size_t en, std::size_t c0, std::size_t cn)
    {
        c.set_element_range(e0, en);
        c.set_collection_range(c0, cn);
        auto edge = [](std::size_t n) {
            return std::vector<std::size_t>{0, 1, n - 1, n, n + 1, npos / 2, npos / 2 + 1, npos - n, npos - 1, npos};
        };
        auto rejected = [&](const char* what, std::size_t s, std::size_t k, std::size_t n, auto f) {
            if (s < n && k > 0 && k <= n - s)
                return; // valid
            bool threw = false;
            try
            {
                f(s, k);
            }
            catch (const mdds::invalid_arg_error&)
            {
                threw = true;
            }
            MC_CHECK(threw, << what << "(" << s << ", " << k << ") of " << n << " is accepted");
            mc::count("rejected");
        };
        for (std::size_t s : edge(g[0].size()))
            for (std::size_t k : edge(g[0].size()))
                rejected("set_element_range", s, k, g[0].size(), [&](auto a, auto b) { c.set_element_range(a, b); });
        for (std::size_t s : edge(g.size()))
            for (std::size_t k : edge(g.size()))
                rejected("set_collection_range", s, k, g.size(), [&](auto a, auto b) { c.set_collection_range(a, b); });
        traverse(c, e0, en, c0, cn, "after rejected ranges");
    }
};

template<typename C>
void ranges_case()
{
    using F = fixture<C>;
    F f;
    std::size_t n = 1 + mc::choose(mc::param("vectors"));
    int cells = mc::param("cells");
    std::size_t len = 1 + mc::choose(std::min<int>(mc::param("len"), cells / int(n)));
    f.build(n, len, int(n * len) <= mc::param("fullcells") ? 4 : 3);
    int kind = mc::choose(5);
    mc::transition();
    f.with(kind, [&](typename F::coll c) {
        f.traverse(c, 0, len, 0, n, "whole collection", 0);
        f.traverse(c, 0, len, 0, n, "whole collection", 1);
        f.all_ranges(c, "sub-range");
        if (kind == 0)
            f.bad_ranges(c, len / 2, len - len / 2, n / 2, n - n / 2);
    });
}

/** operations on two collections and on their vectors, in every order */
template<typename C>
void history_case()
{
    using F = fixture<C>;
    struct side
    {
        typename F::coll c;
        int which = -1; // whose vectors
        std::size_t e0 = 0, en = 0, c0 = 0, cn = 0;
    };
    F f[2];
    side s[2];
    int len = mc::param("len");
    for (int k = 0; k < 2; ++k)
    {
        f[k].build(2, len, 3);
        std::vector<const C*> p;
        for (auto& x : f[k].v)
            p.push_back(x.get());
        s[k] = {typename F::coll(p.begin(), p.end()), k, 0, std::size_t(len), 0, 2};
    }
    auto check = [&](const char* what) {
        for (auto& x : s)
        {
            if (x.which < 0)
            {
                MC_CHECK(x.c.size() == 0 && x.c.begin() == x.c.end(), << what << ": the empty collection");
                continue;
            }
            f[x.which].traverse(x.c, x.e0, x.en, x.c0, x.cn, what, 2);
        }
    };
    for (int d = 0; d < mc::param("depth"); ++d)
    {
        int op = mc::choose(9);
        side& a = s[0];
        side& b = s[1];
        const char* what = "";
        mc::transition();
        switch (op)
        {
            case 0:
                what = "swap";
                a.c.swap(b.c);
                std::swap(a.which, b.which);
                std::swap(a.e0, b.e0);
                std::swap(a.en, b.en);
                std::swap(a.c0, b.c0);
                std::swap(a.cn, b.cn);
                break;
            case 1:
                what = "copy assign";
                b = a;
                break;
            case 2: {
                what = "copy construct and swap";
                typename F::coll t(b.c);
                t.swap(a.c);
                a.which = b.which;
                a.e0 = b.e0, a.en = b.en, a.c0 = b.c0, a.cn = b.cn;
                break;
            }
            case 3:
                what = "set_element_range";
                if (a.which < 0)
                    continue;
                a.e0 = mc::choose(len);
                a.en = 1 + mc::choose(int(len - a.e0));
                a.c.set_element_range(a.e0, a.en);
                break;
            case 4:
                what = "set_collection_range";
                if (a.which < 0)
                    continue;
                a.c0 = mc::choose(2);
                a.cn = 1 + mc::choose(int(2 - a.c0));
                a.c.set_collection_range(a.c0, a.cn);
                break;
            case 5: {
                what = "mutation of a vector";
                int k = mc::choose(2), v = mc::choose(2), pos = mc::choose(len), t = mc::choose(3);
                f[k].g[v][pos] = t;
                F::put(*f[k].v[v], v, pos, t);
                break;
            }
            case 6:
                what = "assign a default collection";
                a = side();
                break;
            case 7: {
                what = "swap with a default collection";
                typename F::coll t;
                t.swap(b.c);
                b.which = -1;
                MC_CHECK(b.c.size() == 0 && b.c.begin() == b.c.end(), << "swapped with a default collection: not empty");
                side x{t, 0};
                b.c.swap(t);
                MC_CHECK(t.size() == 0, << "swapped back: not empty");
                b = side();
                break;
            }
            default: {
                what = "move construct and move assign";
                typename F::coll t(std::move(a.c));
                a.c = std::move(t);
            }
        }
        check(what);
    }
}

/** ways of constructing: empty ranges, empty vectors, lengths that differ */
template<typename C>
void construct_case()
{
    using F = fixture<C>;
    using coll = typename F::coll;
    int n = mc::choose(4);
    std::vector<C> v;
    std::vector<std::size_t> lens;
    for (int i = 0; i < n; ++i)
    {
        lens.push_back(mc::choose(4));
        v.emplace_back(lens.back());
    }
    mc::transition();
    bool ok = true;
    for (std::size_t l : lens)
        ok = ok && l > 0 && l == lens[0];
    int kind = mc::choose(3);
    bool threw = false;
    coll c;
    std::vector<C*> p;
    for (auto& x : v)
        p.push_back(&x);
    try
    {
        if (kind == 0)
            c = coll(v.begin(), v.end());
        else if (kind == 1)
            c = coll(p.begin(), p.end());
        else
        {
            std::vector<std::unique_ptr<C>> q;
            for (auto& x : v)
                q.push_back(std::make_unique<C>(x));
            coll d(q.begin(), q.end());
            MC_CHECK(d.size() == (n ? lens[0] : 0), << "size " << d.size());
        }
    }
    catch (const mdds::invalid_arg_error&)
    {
        threw = true;
    }
    MC_CHECK(threw == !ok, << (ok ? "valid" : "invalid") << " vectors are " << (threw ? "rejected" : "accepted"));
    if (!ok || kind == 2)
        return;
    std::size_t seen = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++seen)
        MC_CHECK(it->type == m::element_type_empty, << "type of an empty element");
    MC_CHECK(seen == (n ? n * lens[0] : 0), << "elements seen: " << seen);
    if (n == 0)
        for (std::size_t s : {std::size_t(0), std::size_t(1), npos})
            for (std::size_t k : {std::size_t(0), std::size_t(1), npos})
                for (int w = 0; w < 2; ++w)
                {
                    bool t = false;
                    try
                    {
                        w ? c.set_element_range(s, k) : c.set_collection_range(s, k);
                    }
                    catch (const mdds::invalid_arg_error&)
                    {
                        t = true;
                    }
                    MC_CHECK(t, << "a range of an empty collection is accepted");
                }
}

} // namespace

#define SCENARIOS(L)                                                                                                                \
    MC_SCENARIO(                                                                                                                    \
        L##_coll_ranges,                                                                                                            \
        "every collection of up to N vectors with every pattern of empty, int, string and bool elements, given in five ways, x "    \
        "every element range x every collection range, traversed in three ways; every invalid range around the borders",            \
        {"split", 3, 3, 3, 3}, {"vectors", 3, 4, 3, 3}, {"len", 6, 8, 4, 6}, {"cells", 8, 10, 6, 8}, {"fullcells", 6, 8, 5, 6})     \
    {                                                                                                                               \
        ranges_case<L>();                                                                                                           \
    }                                                                                                                               \
    MC_SCENARIO(                                                                                                                    \
        L##_coll_history, "every history of swaps, copies, moves, ranges and element changes of two collections",                   \
        {"split", 3, 3, 3, 3}, {"len", 2, 2, 1, 2}, {"depth", 2, 3, 2, 2})                                                          \
    {                                                                                                                               \
        history_case<L>();                                                                                                          \
    }                                                                                                                               \
    MC_SCENARIO(                                                                                                                    \
        L##_coll_construct, "every list of up to three vectors of lengths 0..3 in three ways", {"split", 1, 1, 1, 1})               \
    {                                                                                                                               \
        construct_case<L>();                                                                                                        \
    }

SCENARIOS(soa)
SCENARIOS(aos)
