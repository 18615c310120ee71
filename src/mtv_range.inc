// Positions far outside the container, and containers too large for 32-bit positions.
#include "mtv_ops.hpp"
#include <climits>
#include <map>

namespace {

using namespace mtvh;

template<typename Tr>
using md = model<container<Tr>, Tr>;

/** every operation with positions around every boundary of the container and of the size type */
template<typename Tr>
void ranges(int n)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    using iterator = typename Md::iterator;
    using M = typename Md::M;
    scoped_ledger led(&Md::touch);
    int id = 0;
    cells r, q;
    {
        C c(events{0}), d(events{1});
        Md::choose_shape(c, r, n, 4, id);
        const std::size_t size = r.size(), top = std::size_t(-1);
        auto place = [&]() -> std::size_t {
            int k = mc::choose(int(size) + 8);
            switch (k - int(size))
            {
                case 2:
                    return std::size_t(1) << 31;
                case 3:
                    return std::size_t(1) << 32;
                case 4:
                    return top / 2 + 1;
                case 5:
                    return top - 2;
                case 6:
                    return top - 1;
                case 7:
                    return top;
                default:
                    return std::size_t(k);
            }
        };
        iterator h;
        bool hinted = false;
        std::string what;
        auto hint = [&] {
            int nb = int(runs(r).size());
            int k = mc::choose(nb + 2);
            hinted = k;
            if (k)
            {
                h = std::next(c.begin(), k - 1);
                what += " (hint: block " + std::to_string(k - 1) + ")";
            }
        };
        auto call = [&](bool out, bool maybe, auto&& f) {
            MC_NOTE("  " << what << " on " << show(r));
            bool threw = false;
            try
            {
                f();
            }
            catch (const std::out_of_range&)
            {
                threw = true;
            }
            mc::transition();
            if (!maybe)
                MC_CHECK(threw == out, << what << " on " << show(r) << (threw ? " throws" : " does not throw"));
            return !threw;
        };
        int op = mc::choose(9);
        if (op < 3)
        {
            std::size_t p = place();
            int len = op == 0 ? 1 : mc::choose(4);
            int type = 1 + mc::choose(3);
            what = (op == 0 ? "set " : op == 1 ? "set range " : "insert range ") + std::to_string(p) + " x " + std::to_string(len);
            hint();
            bool out = p >= size || (op == 1 && std::size_t(len) > size - p);
            Md::with_type(type, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                std::vector<T> v;
                for (int i = 0; i < len; ++i)
                    v.push_back(mkval<T>(100 + i));
                bool done = call(out, !len && p >= size, [&] {
                    if (op == 0)
                        hinted ? c.set(h, p, v[0]) : c.set(p, v[0]);
                    else if (op == 1)
                        hinted ? c.set(h, p, v.begin(), v.end()) : c.set(p, v.begin(), v.end());
                    else
                        hinted ? c.insert(h, p, v.begin(), v.end()) : c.insert(p, v.begin(), v.end());
                });
                if (!done)
                    for (auto& x : v)
                        dropval(x);
                else
                    for (int i = 0; i < len; ++i)
                        if (op == 2)
                            r.insert(r.begin() + p + i, {type, 100 + i});
                        else
                            r[p + i] = {type, 100 + i};
            });
        }
        else if (op == 3)
        {
            std::size_t p = place();
            int len = mc::choose(3);
            what = "insert_empty " + std::to_string(p) + " x " + std::to_string(len);
            hint();
            if (call(p >= size, !len && p >= size, [&] { hinted ? c.insert_empty(h, p, len) : c.insert_empty(p, len); }) && p < size)
                r.insert(r.begin() + p, len, cell{});
        }
        else if (op < 7)
        {
            std::size_t s = place(), e = place();
            what = (op == 4 ? "set_empty " : op == 5 ? "erase " : "release_range ") + std::to_string(s) + ".." + std::to_string(e);
            if (op != 5)
                hint();
            bool out = s > e || e >= size;
            std::vector<M> rel;
            if (op == 6 && !out)
                for (auto i = s; i <= e; ++i)
                    if (r[i].type == 3)
                        rel.push_back(std::as_const(c).template get<M>(i));
            if (call(out, false, [&] {
                    if (op == 4)
                        hinted ? c.set_empty(h, s, e) : c.set_empty(s, e);
                    else if (op == 5)
                        c.erase(s, e);
                    else
                        hinted ? c.release_range(h, s, e) : c.release_range(s, e);
                }))
            {
                for (auto& x : rel)
                    dropval(x);
                if (op == 5)
                    r.erase(r.begin() + s, r.begin() + e + 1);
                else
                    std::fill(r.begin() + s, r.begin() + e + 1, cell{});
            }
        }
        else if (op == 7)
        {
            // between containers
            int m = mc::choose(3);
            for (int i = 0; i < m; ++i)
                Md::append(d, q, i ? 1 : 3, id);
            bool tr = mc::flip(), self = tr && mc::flip();
            std::size_t s = place(), e = place();
            std::size_t p = mc::flip() ? mc::choose(m + 2) : (mc::flip() ? top - mc::choose(int(size) + 1) : std::size_t(1) << 32);
            what = (self ? "self transfer " : tr ? "transfer " : "swap ") + std::to_string(s) + ".." + std::to_string(e) + " with position " + std::to_string(p);
            if (tr)
                hint();
            bool out = s > e || e >= size || p >= q.size() || e - s >= q.size() - p;
            if (self)
            {
                int threw = 0;
                MC_NOTE("  " << what << " on " << show(r));
                try
                {
                    hinted ? c.transfer(h, s, e, c, p) : c.transfer(s, e, c, p);
                }
                catch (const mdds::invalid_arg_error&)
                {
                    threw = 1;
                }
                catch (const std::out_of_range&)
                {
                    threw = 2;
                }
                bool in = s <= e && e < size && p < size && e - s < size - p;
                MC_CHECK(threw == 1 || (!in && threw == 2), << what << " on " << show(r) << " is not rejected");
            }
            else if (call(out, false, [&] {
                         if (tr)
                             hinted ? c.transfer(h, s, e, d, p) : c.transfer(s, e, d, p);
                         else
                             c.swap(s, e, d, p);
                     }))
            {
                for (std::size_t i = 0; i <= e - s; ++i)
                    if (tr)
                    {
                        q[p + i] = r[s + i];
                        r[s + i] = {};
                    }
                    else
                        std::swap(r[s + i], q[p + i]);
            }
        }
        else
        {
            // single element access
            std::size_t p = place();
            const C& cc = c;
            int k = mc::choose(7);
            what = "access " + std::to_string(k) + " of " + std::to_string(p);
            int type = p < size ? r[p].type : 1;
            if (!type)
                type = 1;
            Md::with_type(type, [&](auto* t) {
                using T = std::remove_pointer_t<decltype(t)>;
                T v{};
                bool done = call(k == 5 || k == 6 ? p > size : p >= size, false, [&] {
                    if (k == 0)
                        cc.get_type(p);
                    else if (k == 1)
                        cc.is_empty(p);
                    else if (k == 2)
                        cc.get(p, v);
                    else if (k == 3)
                        cc.template get<T>(p);
                    else if (k == 4)
                    {
                        hint();
                        hinted ? c.release(h, p, v) : c.release(p, v);
                    }
                    else if (k == 5)
                        cc.position(p);
                    else
                    {
                        hint();
                        if (hinted)
                            c.position(h, p);
                        else
                            c.position(p);
                    }
                });
                if (done && k == 4)
                {
                    if (r[p].type)
                        dropval(v);
                    r[p] = {};
                }
            });
        }
        Md::check(c, r, "after " + what);
        Md::check(d, q, "other container after " + what);
        Md::check_events(led.l, {&c, &d});
        Md::check_live({&r, &q}, 0);
    }
    led.none();
    Md::check_live({}, 0);
}

// ---- huge containers ----------------------------------------------------------

/** contents of a huge container: few non-empty cells */
struct sparse
{
    std::size_t size = 0;
    std::map<std::size_t, cell> m;

    std::vector<run> runs() const
    {
        std::vector<run> v;
        std::size_t at = 0;
        for (auto& [p, c] : m)
        {
            if (p > at)
                v.push_back({at, p - at, 0});
            if (!v.empty() && v.back().type == c.type)
                ++v.back().size;
            else
                v.push_back({p, 1, c.type});
            at = p + 1;
        }
        if (at < size)
            v.push_back({at, size - at, 0});
        return v;
    }
    void clear(std::size_t s, std::size_t e)
    {
        m.erase(m.lower_bound(s), m.upper_bound(e));
    }
    void shift(std::size_t from, std::size_t by, bool up)
    {
        std::map<std::size_t, cell> n;
        for (auto& [p, c] : m)
            n[p < from ? p : up ? p + by : p - by] = c;
        m = n;
        size = up ? size + by : size - by;
    }
};

inline std::string show(const sparse& r)
{
    std::string s = "size " + std::to_string(r.size) + " [";
    for (auto& [p, c] : r.m)
        s += std::to_string(p) + ":" + "-ISM"[c.type] + std::to_string(c.id) + " ";
    return s + "]";
}

template<typename Md>
void check_sparse(typename Md::C& c, const sparse& r, const std::string& who)
{
    using C = typename Md::C;
    const C& cc = c;
    MC_CHECK(cc.size() == r.size, << who << ": size " << cc.size() << ", expected " << show(r));
    auto rs = r.runs();
    MC_CHECK(cc.block_size() == rs.size(), << who << ": " << cc.block_size() << " blocks, expected " << rs.size() << " for " << show(r));
    auto it = cc.begin();
    for (auto& x : rs)
    {
        MC_CHECK(
            it->position == x.pos && it->size == x.size && it->type == Md::Set::id[x.type],
            << who << ": block at " << it->position << " of size " << it->size << ", expected " << x.pos << " of " << x.size << " for " << show(r));
        // lookups at both ends of the block, and stepping between any two of these
        std::size_t ends[2] = {x.pos, x.pos + x.size - 1};
        for (auto p : ends)
        {
            auto pos = cc.position(p);
            MC_CHECK(pos.first == it && pos.second == p - x.pos, << who << ": position(" << p << ") for " << show(r));
            MC_CHECK(C::logical_position(pos) == p, << who << ": logical_position of " << p);
            for (auto& y : rs)
                for (std::size_t t : {y.pos, y.pos + 1, y.pos + y.size - 1})
                {
                    if (t >= r.size)
                        continue;
                    std::size_t dist = t > p ? t - p : p - t;
                    if (dist > std::size_t(INT_MAX) + (t < p))
                        continue;
                    int steps = t > p ? int(dist) : int(-(long long)dist);
                    auto w = C::advance_position(pos, steps);
                    MC_CHECK(
                        C::logical_position(w) == t && w.second < w.first->size,
                        << who << ": advance_position from " << p << " by " << steps << " for " << show(r));
                }
            if (p >= 5) // steps within a block and over its border
                MC_CHECK(C::logical_position(C::advance_position(pos, -5)) == p - 5, << who << ": advance_position from " << p << " by -5 for " << show(r));
            if (r.size - p > 5)
                MC_CHECK(C::logical_position(C::advance_position(pos, 5)) == p + 5, << who << ": advance_position from " << p << " by 5 for " << show(r));
            MC_CHECK(cc.get_type(p) == Md::Set::id[x.type], << who << ": get_type(" << p << ")");
        }
        ++it;
    }
    MC_CHECK(it == cc.end(), << who << ": more blocks");
    for (auto& [p, v] : r.m)
        Md::with_type(v.type, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            MC_CHECK(isval<T>(cc.template get<T>(p), v.id), << who << ": value at " << p << " for " << show(r));
        });
}

template<typename Tr>
void huge(int depth)
{
    using Md = md<Tr>;
    using C = typename Md::C;
    scoped_ledger led(&Md::touch);
    const std::size_t G = std::size_t(1) << 30;
    const std::size_t sizes[] = {2 * G, 2 * G + 2, 4 * G, 4 * G + 3, 3 * G, std::size_t(-1) / 4 + 2, std::size_t(-1) / 2};
    sparse r;
    int id = 0;
    {
        r.size = sizes[mc::choose(7)];
        C c(r.size);
        MC_NOTE("size " << r.size);
        for (int k = 0; k < depth; ++k)
        {
            std::vector<std::size_t> ps;
            for (std::size_t p : {std::size_t(0), 2 * G - 1, 2 * G, 4 * G - 1, 4 * G, r.size - 2, r.size - 1})
                if (p < r.size && std::find(ps.begin(), ps.end(), p) == ps.end())
                    ps.push_back(p);
            if (ps.empty())
                break;
            auto place = [&] { return ps[mc::choose(int(ps.size()))]; };
            std::string what;
            switch (mc::choose(5))
            {
                case 0:
                {
                    std::size_t p = place();
                    int type = mc::flip() ? 3 : 1;
                    what = "set " + std::to_string(p) + " to " + "-ISM"[type];
                    MC_NOTE("  " << what);
                    ++id;
                    Md::with_type(type, [&](auto* t) { c.set(p, mkval<std::remove_pointer_t<decltype(t)>>(id)); });
                    r.m[p] = {type, id};
                    break;
                }
                case 1:
                {
                    std::size_t s = place(), e = place();
                    if (s > e)
                        throw mc::prune();
                    what = "set_empty " + std::to_string(s) + ".." + std::to_string(e);
                    MC_NOTE("  " << what);
                    c.set_empty(s, e);
                    r.clear(s, e);
                    break;
                }
                case 2:
                {
                    std::size_t s = place(), e = place();
                    if (s > e)
                        throw mc::prune();
                    what = "erase " + std::to_string(s) + ".." + std::to_string(e);
                    MC_NOTE("  " << what);
                    c.erase(s, e);
                    r.clear(s, e);
                    r.shift(e, e - s + 1, false);
                    break;
                }
                case 3:
                {
                    std::size_t p = place(), len = mc::flip() ? 1 : 2 * G;
                    if (len > std::size_t(-1) / 2 - r.size)
                        throw mc::prune();
                    what = "insert_empty " + std::to_string(p) + " x " + std::to_string(len);
                    MC_NOTE("  " << what);
                    c.insert_empty(p, len);
                    r.shift(p, len, true);
                    break;
                }
                case 4:
                {
                    std::size_t n = place() + 1;
                    if (mc::flip() && n < std::size_t(-1) / 2 - 4 * G)
                        n += 4 * G;
                    what = "resize " + std::to_string(n);
                    MC_NOTE("  " << what);
                    c.resize(n);
                    r.clear(n, std::size_t(-1));
                    r.size = n;
                    break;
                }
            }
            mc::transition();
            if (mc::fresh())
                check_sparse<Md>(c, r, "after " + what);
        }
        std::int64_t n = 0;
        for (auto& x : r.m)
            n += x.second.type == 3;
        MC_CHECK(mobj::live == n, << mobj::live << " managed elements alive, " << n << " expected");
    }
    led.none();
    Md::check_live({}, 0);
}

} // namespace

MC_SCENARIO(
    MTV(range), "every shape x every operation with every hint and positions around the boundaries of the container and of the size type",
    {"n", 3, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    ranges<traits<set_std>>(mc::param("n"));
}

MC_SCENARIO(
    MTV(huge), "containers larger than 32-bit positions x every sequence of operations at the critical positions",
    {"depth", 3, 4, 2, 3}, {"split", 3, 3, 3, 3})
{
    huge<traits<set_std>>(mc::param("depth"));
}
