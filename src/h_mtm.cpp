// multi_type_matrix
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/multi_type_matrix.hpp>

#include <limits>
#include <optional>

namespace {

constexpr std::size_t npos = std::numeric_limits<std::size_t>::max();

struct mystr
{
    std::string s;
    bool operator==(const mystr&) const = default;
};

using mystr_block = mdds::mtv::default_element_block<70, mystr>;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(mystr, 70, mystr(), mystr_block)

struct own_traits
{
    using integer_element_block = mdds::mtv::int64_element_block;
    using string_element_block = mystr_block;
};

enum : int
{
    Empty,
    Num,
    Bool,
    Str,
    Int
};

struct cell
{
    int type = 0, id = 0;
    bool operator==(const cell&) const = default;
};

template<typename T>
struct fixture
{
    using M = mdds::multi_type_matrix<T>;
    using string_t = typename M::string_type;
    using int_t = typename M::integer_type;
    using sz = typename M::size_pair_type;
    using node = typename M::element_block_node_type;

    static double num(int id) { return id + 0.5; }
    static bool boo(int id) { return id & 1; }
    static int_t integer(int id) { return int_t(-id); }
    static string_t str(int id)
    {
        std::string s = "the string of cell number " + std::to_string(id);
        if constexpr (std::is_same_v<string_t, std::string>)
            return s;
        else
            return string_t{s};
    }

    /** the reference: a plain two-dimensional array, column by column */
    struct ref
    {
        std::size_t rows = 0, cols = 0;
        std::vector<cell> v;

        ref() = default;
        ref(std::size_t r, std::size_t c, cell x = {}) : rows(r), cols(c), v(r * c, x) {}
        cell& at(std::size_t r, std::size_t c) { return v[c * rows + r]; }
        const cell& at(std::size_t r, std::size_t c) const { return v[c * rows + r]; }
        bool operator==(const ref&) const = default;
        std::string show() const
        {
            std::string s = std::to_string(rows) + "x" + std::to_string(cols) + "[";
            for (auto& x : v)
                s += std::string(1, "-nbsi"[x.type]) + (x.type ? std::to_string(x.id) : "") + " ";
            return s + "]";
        }
        std::uint64_t fp() const
        {
            mc::fp f;
            f.add(rows).add(cols);
            for (auto& x : v)
                f.add(x.type * 1000 + x.id);
            return f.get();
        }
    };

    /** the same values, whatever the ids: several ids stand for the same boolean */
    static bool same(ref a, ref b)
    {
        for (ref* r : {&a, &b})
            for (auto& x : r->v)
                if (x.type == Bool)
                    x.id &= 1;
        return a == b;
    }

    template<typename F>
    static auto with(cell c, F f)
    {
        switch (c.type)
        {
            case Num:
                return f(num(c.id));
            case Bool:
                return f(boo(c.id));
            case Str:
                return f(str(c.id));
            default:
                return f(integer(c.id));
        }
    }

    /** a list of n values of one type, the ids counting up */
    template<typename F>
    static auto list(cell c, std::size_t n, F f)
    {
        return with(c, [&](auto x) {
            std::vector<decltype(x)> v;
            for (std::size_t i = 0; i < n; ++i)
                with({c.type, c.id + int(i)}, [&](auto y) {
                    if constexpr (std::is_same_v<decltype(x), decltype(y)>)
                        v.push_back(y);
                });
            return f(v);
        });
    }

    static void put(M& m, std::size_t r, std::size_t c, cell x)
    {
        if (x.type == Empty)
            m.set_empty(r, c);
        else
            with(x, [&](auto v) { m.set(r, c, v); });
    }

    static M build(const ref& r, bool backwards = false)
    {
        M m(r.rows, r.cols);
        for (std::size_t k = 0; k < r.v.size(); ++k)
        {
            std::size_t i = backwards ? r.v.size() - 1 - k : k;
            if (r.v[i].type)
                put(m, i % r.rows, i / r.rows, r.v[i]);
        }
        return m;
    }

    /** types of all cells chosen, the values all different */
    static ref choose_ref(std::size_t rows, std::size_t cols, int limit, int first = 1)
    {
        ref r(rows, cols);
        std::size_t n = r.v.size();
        // all five types as far as the number of patterns stays within the limit
        int t = 5;
        auto patterns = [&] {
            double p = 1;
            for (std::size_t i = 0; i < n; ++i)
                p *= t;
            return p;
        };
        while (t > 2 && patterns() > limit)
            --t;
        static const int order[] = {Str, Int, Empty, Num, Bool};
        int rot = t < 5 ? mc::choose(5) : 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            r.v[i].type = order[(mc::choose(t) + rot) % 5];
            r.v[i].id = r.v[i].type ? first + int(i) : 0;
        }
        return r;
    }

    static mdds::mtm::element_t mtype(int t)
    {
        static const mdds::mtm::element_t ids[] = {
            mdds::mtm::element_empty, mdds::mtm::element_numeric, mdds::mtm::element_boolean, mdds::mtm::element_string,
            mdds::mtm::element_integer};
        return ids[t];
    }

    static bool holds(const M& m, const typename M::const_position_type& p, cell x)
    {
        switch (x.type)
        {
            case Num:
                return m.get_numeric(p) == num(x.id) && m.get_integer(p) == int_t(num(x.id)) && m.get_boolean(p);
            case Bool:
                return m.get_numeric(p) == (boo(x.id) ? 1.0 : 0.0) && m.get_integer(p) == (boo(x.id) ? 1 : 0) &&
                       m.get_boolean(p) == boo(x.id);
            case Int:
                return m.get_numeric(p) == double(integer(x.id)) && m.get_integer(p) == integer(x.id) && m.get_boolean(p) == (x.id != 0);
            case Str:
                return m.get_string(p) == str(x.id) && m.get_numeric(p) == 0.0 && m.get_integer(p) == 0 && !m.get_boolean(p);
            default:
                return m.get_numeric(p) == 0.0 && m.get_integer(p) == 0 && !m.get_boolean(p);
        }
    }

    static bool holds(const M& m, std::size_t r, std::size_t c, cell x)
    {
        switch (x.type)
        {
            case Num:
                return m.get_numeric(r, c) == num(x.id) && m.get_integer(r, c) == int_t(num(x.id)) && m.get_boolean(r, c) &&
                       m.template get<double>(r, c) == num(x.id);
            case Bool:
                return m.get_numeric(r, c) == (boo(x.id) ? 1.0 : 0.0) && m.get_integer(r, c) == (boo(x.id) ? 1 : 0) &&
                       m.get_boolean(r, c) == boo(x.id) && m.template get<bool>(r, c) == boo(x.id);
            case Int:
                return m.get_numeric(r, c) == double(integer(x.id)) && m.get_integer(r, c) == integer(x.id) &&
                       m.get_boolean(r, c) == (x.id != 0) && m.template get<int_t>(r, c) == integer(x.id);
            case Str:
                return m.get_string(r, c) == str(x.id) && m.get_numeric(r, c) == 0.0 && m.get_integer(r, c) == 0 &&
                       !m.get_boolean(r, c) && m.template get<string_t>(r, c) == str(x.id);
            default:
                return m.get_numeric(r, c) == 0.0 && m.get_integer(r, c) == 0 && !m.get_boolean(r, c);
        }
    }

    template<typename F>
    static void throws(const char* what, F f)
    {
        bool threw = false;
        try
        {
            f();
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (!threw)
            mc::fail(std::string(what) + ": no exception");
    }

    static void check(const M& m, const ref& r, const char* what)
    {
        auto s = m.size();
        MC_CHECK(s.row == r.rows && s.column == r.cols, << what << ": size " << s.row << "x" << s.column << ", expected " << r.show());
        MC_CHECK(m.empty() == r.v.empty(), << what << ": empty()");
        bool numeric = !r.v.empty();
        for (auto& x : r.v)
            numeric = numeric && (x.type == Num || x.type == Bool || x.type == Int);
        MC_CHECK(m.numeric() == numeric, << what << ": numeric() of " << r.show());
        if (r.v.empty())
            return;
        typename M::const_position_type p = m.position(0, 0);
        for (std::size_t c = 0; c < r.cols; ++c)
            for (std::size_t i = 0; i < r.rows; ++i)
            {
                const cell& x = r.at(i, c);
                MC_CHECK(p != m.end_position(), << what << ": end before " << i << "," << c);
                MC_CHECK(m.get_type(i, c) == mtype(x.type), << what << ": type " << int(m.get_type(i, c)) << " at " << i << "," << c << " of " << r.show());
                MC_CHECK(m.get_type(p) == mtype(x.type), << what << ": type through the position at " << i << "," << c << " of " << r.show());
                MC_CHECK(holds(m, i, c, x), << what << ": value at " << i << "," << c << " of " << r.show());
                MC_CHECK(holds(m, p, x), << what << ": value through the position at " << i << "," << c << " of " << r.show());
                MC_CHECK(m.position(i, c) == p, << what << ": position(" << i << "," << c << ")");
                sz mp = m.matrix_position(p);
                MC_CHECK(mp.row == i && mp.column == c, << what << ": matrix_position gives " << mp.row << "," << mp.column);
                p = M::next_position(p);
            }
        MC_CHECK(p == m.end_position(), << what << ": stepping past the last cell");
    }

    /** everything else that can be asked: wrong types, positions past the end, hints, equality */
    static void check_all(M& m, const ref& r)
    {
        const M& cm = m;
        auto at_end = [&](std::size_t i, std::size_t c) {
            throws("get_type past the end", [&] { cm.get_type(i, c); });
            throws("get_numeric past the end", [&] { cm.get_numeric(i, c); });
            throws("get_integer past the end", [&] { cm.get_integer(i, c); });
            throws("get_boolean past the end", [&] { cm.get_boolean(i, c); });
            throws("get_string past the end", [&] { cm.get_string(i, c); });
            throws("get past the end", [&] { cm.template get<double>(i, c); });
            throws("set past the end", [&] { m.set(i, c, 1.0); });
            throws("set past the end", [&] { m.set(i, c, str(1)); });
            throws("set_empty past the end", [&] { m.set_empty(i, c); });
            throws("set_empty past the end", [&] { m.set_empty(i, c, 1); });
            throws("set of a range past the end", [&] {
                std::vector<double> v{1.0};
                m.set(i, c, v.begin(), v.end());
            });
        };
        at_end(0, r.cols);
        if (r.rows)
        {
            at_end(r.rows, r.cols - (r.cols > 0));
            throws("set_column_empty past the end", [&] { m.set_column_empty(r.cols); });
            throws("set_column past the end", [&] {
                std::vector<double> v(r.rows, 1.0);
                m.set_column(r.cols, v.begin(), v.end());
            });
        }
        check(m, r, "rejected access");
        for (std::size_t c = 0; c < r.cols; ++c)
            for (std::size_t i = 0; i < r.rows; ++i)
            {
                int t = r.at(i, c).type;
                if (t != Str)
                {
                    throws("get_string of something else", [&] { cm.get_string(i, c); });
                    throws("get_string of something else", [&] { cm.get_string(cm.position(i, c)); });
                }
                if (t != Empty)
                    for (int w = Num; w <= Int; ++w)
                        if (w != t)
                            throws("get<T> of another type", [&] { with({w, 1}, [&](auto v) { cm.template get<decltype(v)>(i, c); }); });
                for (std::size_t c2 = 0; c2 < r.cols; ++c2)
                    for (std::size_t i2 = 0; i2 < r.rows; ++i2)
                    {
                        MC_CHECK(cm.position(cm.position(i, c), i2, c2) == cm.position(i2, c2), << "position with a hint");
                        MC_CHECK(m.position(m.position(i, c), i2, c2) == m.position(i2, c2), << "position with a hint");
                    }
            }
        if (!r.v.empty())
        {
            auto p = m.position(0, 0);
            for (std::size_t k = 0; k < r.v.size(); ++k)
            {
                MC_CHECK(p == m.position(k % r.rows, k / r.rows), << "next_position");
                p = M::next_position(p);
            }
            MC_CHECK(p == m.end_position(), << "next_position at the end");
        }
        // equality
        M twin = build(r, true);
        MC_CHECK(twin == m && m == twin, << "a matrix with the same cells is not equal");
        for (std::size_t k = 0; k < r.v.size(); ++k)
            for (int t = Empty; t <= Int; ++t)
            {
                cell x{t, t ? r.v[k].id + (t == r.v[k].type) : 0};
                if (t == Empty && r.v[k].type == Empty)
                    continue;
                M other(twin);
                put(other, k % r.rows, k / r.rows, x);
                MC_CHECK(other != m && !(m == other), << "a matrix with another cell is equal");
            }
        if (r.rows != r.cols)
        {
            M other(r.cols, r.rows);
            if (std::all_of(r.v.begin(), r.v.end(), [](auto& x) { return !x.type; }))
                MC_CHECK(other != m, << "a matrix of another size is equal");
        }
        check(m, r, "after comparisons");
    }

    // ---- one operation on one matrix ----------------------------------------------

    struct dims
    {
        std::size_t max; // largest number of rows or columns for resize
    };

    static ref resized(const ref& r, std::size_t rows, std::size_t cols, cell fill)
    {
        if (!rows || !cols)
            return ref();
        ref n(rows, cols, fill);
        for (std::size_t c = 0; c < std::min(cols, r.cols); ++c)
            for (std::size_t i = 0; i < std::min(rows, r.rows); ++i)
                n.at(i, c) = r.at(i, c);
        return n;
    }

    /** applies a chosen operation to both; returns its name */
    static const char* op(M& m, ref& r, int id, std::size_t maxdim)
    {
        std::size_t n = r.v.size();
        auto same_pos = [&](const typename M::position_type& p, std::size_t k, const char* what) {
            auto mp = m.matrix_position(p);
            MC_CHECK(mp.row == k % r.rows && mp.column == k / r.rows, << what << ": returned position " << mp.row << "," << mp.column);
            MC_CHECK(m.get_type(p) == mtype(r.v[k].type), << what << ": type at the returned position");
            MC_CHECK(holds(m, p, r.v[k]), << what << ": value at the returned position");
            MC_CHECK(p == m.position(k % r.rows, k / r.rows), << what << ": returned position");
        };
        switch (mc::choose(16))
        {
            case 0: {
                if (!n)
                    return nullptr;
                std::size_t k = mc::choose(int(n));
                cell x{1 + mc::choose(4), id};
                bool pos = mc::flip();
                r.v[k] = x;
                MC_NOTE("set cell " << k << " type " << x.type << (pos ? " by position" : ""));
                if (!pos)
                    with(x, [&](auto v) { m.set(k % r.rows, k / r.rows, v); });
                else
                    same_pos(with(x, [&](auto v) { return m.set(m.position(k % r.rows, k / r.rows), v); }), k, "set");
                return "set";
            }
            case 1: {
                if (!n)
                    return nullptr;
                std::size_t k = mc::choose(int(n));
                cell x{1 + mc::choose(4), id};
                std::size_t len = mc::choose(int(n - k + 2));
                bool pos = mc::flip();
                bool bad = k + len > n;
                MC_NOTE("set " << len << " cells from " << k << " type " << x.type << (pos ? " by position" : ""));
                if (!bad)
                    for (std::size_t i = 0; i < len; ++i)
                        r.v[k + i] = {x.type, x.id + int(i)};
                auto f = [&] {
                    list(x, len, [&](const auto& v) {
                        if (!pos)
                            m.set(k % r.rows, k / r.rows, v.begin(), v.end());
                        else
                        {
                            auto p = m.set(m.position(k % r.rows, k / r.rows), v.begin(), v.end());
                            if (len)
                                same_pos(p, k, "set of a range");
                        }
                    });
                };
                if (bad)
                    throws("set of a range past the end", f);
                else
                    f();
                return "set of a range";
            }
            case 2: {
                if (!n)
                    return nullptr;
                std::size_t k = mc::choose(int(n));
                bool pos = mc::flip();
                r.v[k] = {};
                MC_NOTE("set_empty " << k << (pos ? " by position" : ""));
                if (!pos)
                    m.set_empty(k % r.rows, k / r.rows);
                else
                    same_pos(m.set_empty(m.position(k % r.rows, k / r.rows)), k, "set_empty");
                return "set_empty";
            }
            case 3: {
                if (!n)
                    return nullptr;
                std::size_t k = mc::choose(int(n));
                std::size_t len = mc::choose(int(n - k + 3));
                if (len == n - k + 2)
                    len = npos;
                MC_NOTE("set_empty from " << k << " length " << len);
                if (len == 0 || len > n - k)
                    throws("set_empty with a wrong length", [&] { m.set_empty(k % r.rows, k / r.rows, len); });
                else
                {
                    for (std::size_t i = 0; i < len; ++i)
                        r.v[k + i] = {};
                    m.set_empty(k % r.rows, k / r.rows, len);
                }
                return "set_empty of a range";
            }
            case 4: {
                if (!n)
                    return nullptr;
                std::size_t c = mc::choose(int(r.cols));
                MC_NOTE("set_column_empty " << c);
                for (std::size_t i = 0; i < r.rows; ++i)
                    r.at(i, c) = {};
                m.set_column_empty(c);
                return "set_column_empty";
            }
            case 5: {
                if (!n)
                    return nullptr;
                std::size_t i = mc::choose(int(r.rows));
                MC_NOTE("set_row_empty " << i);
                for (std::size_t c = 0; c < r.cols; ++c)
                    r.at(i, c) = {};
                m.set_row_empty(i);
                return "set_row_empty";
            }
            case 6: {
                if (!n)
                    return nullptr;
                std::size_t c = mc::choose(int(r.cols)), len = mc::choose(int(r.rows + 3));
                cell x{1 + mc::choose(4), id};
                MC_NOTE("set_column " << c << " " << len << " values of type " << x.type);
                for (std::size_t i = 0; i < std::min(len, r.rows); ++i)
                    r.at(i, c) = {x.type, x.id + int(i)};
                list(x, len, [&](const auto& v) { m.set_column(c, v.begin(), v.end()); });
                return "set_column";
            }
            case 7: {
                MC_NOTE("transpose");
                ref t(r.cols, r.rows);
                for (std::size_t c = 0; c < r.cols; ++c)
                    for (std::size_t i = 0; i < r.rows; ++i)
                        t.at(c, i) = r.at(i, c);
                r = t;
                MC_CHECK(&m.transpose() == &m, << "transpose() returns another object");
                return "transpose";
            }
            case 8: {
                std::size_t rows = mc::choose(int(maxdim + 1)), cols = mc::choose(int(maxdim + 1));
                cell x{mc::choose(5), id};
                MC_NOTE("resize " << rows << "x" << cols << " fill " << x.type);
                if (!x.type)
                    x.id = 0;
                r = resized(r, rows, cols, x);
                if (x.type)
                    with(x, [&](auto v) { m.resize(rows, cols, v); });
                else
                    m.resize(rows, cols);
                return "resize";
            }
            case 9:
                MC_NOTE("clear");
                r = ref();
                m.clear();
                return "clear";
            case 10: {
                bool back = mc::flip();
                MC_NOTE("copy, change the copy");
                M c(m);
                MC_CHECK(c == m, << "a copy is not equal");
                if (n)
                {
                    put(c, 0, 0, {r.v[0].type == Num ? Str : Num, id});
                    MC_CHECK(c != m, << "a changed copy is equal");
                    check(m, r, "original after a change of the copy");
                }
                if (back)
                {
                    m = c;
                    if (n)
                        r.v[0] = {r.v[0].type == Num ? Str : Num, id};
                    c.clear();
                }
                M& self = m;
                m = self;
                m.copy(self);
                return "copy";
            }
            case 11: {
                MC_NOTE("move out and back");
                M c(std::move(m));
                check(c, r, "moved to");
                auto s = m.size();
                MC_CHECK(m.empty() == (s.row * s.column == 0), << "a moved-from matrix says it is " << s.row << "x" << s.column << " and " << (m.empty() ? "empty" : "not empty"));
                bool reuse = mc::flip();
                if (reuse)
                {
                    m.resize(1, 1, 3.5);
                    MC_CHECK(m.get_numeric(0, 0) == 3.5 && m.size() == sz(1, 1), << "reuse of a moved-from matrix");
                }
                m = std::move(c);
                s = c.size();
                MC_CHECK(c.empty() == (s.row * s.column == 0), << "a moved-from matrix says it is " << s.row << "x" << s.column << " and " << (c.empty() ? "empty" : "not empty"));
                return "move";
            }
            case 12: {
                std::size_t rows = mc::choose(int(r.rows + 2)), cols = mc::choose(int(r.cols + 2));
                int diff = mc::choose(3) - 1;
                cell x{1 + mc::choose(4), id};
                if (rows * cols == 0 && diff < 0)
                    return nullptr;
                std::size_t len = rows * cols + diff;
                MC_NOTE("copy of " << len << " values of type " << x.type << " to " << rows << "x" << cols);
                bool nothing = !len || r.v.empty();
                bool bad = !nothing && (diff != 0 || rows > r.rows || cols > r.cols);
                if (!bad && !nothing)
                    for (std::size_t c = 0; c < cols; ++c)
                        for (std::size_t i = 0; i < rows; ++i)
                            r.at(i, c) = {x.type, x.id + int(c * rows + i)};
                auto f = [&] { list(x, len, [&](const auto& v) { m.copy(rows, cols, v.begin(), v.end()); }); };
                if (bad)
                    throws("copy of a wrong number of values", f);
                else
                    f();
                return "copy of values";
            }
            case 13: {
                std::size_t rows = mc::choose(int(maxdim + 1)), cols = mc::choose(int(maxdim + 1));
                cell x{mc::choose(5), id};
                MC_NOTE("construct " << rows << "x" << cols << " fill " << x.type);
                if (!x.type)
                    x.id = 0;
                r = ref(rows, cols, x);
                if (x.type)
                    m = with(x, [&](auto v) { return M(rows, cols, v); });
                else
                    m = M(rows, cols);
                return "construct";
            }
            case 14: {
                std::size_t rows = 1 + mc::choose(int(maxdim)), cols = 1 + mc::choose(int(maxdim));
                cell x{1 + mc::choose(4), id};
                int diff = mc::choose(3) - 1;
                MC_NOTE("construct " << rows << "x" << cols << " from values of type " << x.type << " count difference " << diff);
                auto f = [&] { list(x, rows * cols + diff, [&](const auto& v) { m = M(rows, cols, v.begin(), v.end()); }); };
                if (diff)
                    throws("construction from a wrong number of values", f);
                else
                {
                    r = ref(rows, cols);
                    for (std::size_t i = 0; i < r.v.size(); ++i)
                        r.v[i] = {x.type, x.id + int(i)};
                    f();
                }
                return "construct from values";
            }
            default: {
                MC_NOTE("swap with another");
                cell x{Int, id};
                ref q(2, 1, x);
                M o = build(q);
                o.swap(m);
                check(o, r, "swapped");
                std::swap(r, q);
                if (mc::flip())
                {
                    m.swap(o);
                    std::swap(r, q);
                }
                return "swap";
            }
        }
    }

    static void choose_dims(std::size_t& rows, std::size_t& cols, std::size_t cells, std::size_t maxdim)
    {
        std::vector<std::pair<std::size_t, std::size_t>> d;
        for (std::size_t i = 0; i <= maxdim; ++i)
            for (std::size_t j = 0; j <= maxdim; ++j)
                if (i * j <= cells)
                    d.emplace_back(i, j);
        auto x = d[mc::choose(int(d.size()))];
        rows = x.first;
        cols = x.second;
    }

    static void step()
    {
        std::size_t rows, cols;
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref r = choose_ref(rows, cols, mc::param("patterns"));
        M m = build(r);
        mc::state(r.fp());
        int depth = mc::param("depth");
        for (int d = 0; d < depth; ++d)
        {
            const char* what = op(m, r, 50 + 20 * d, mc::param("newdim"));
            if (!what)
                return;
            if (mc::fresh())
            {
                mc::transition();
                check(m, r, what);
                M twin = build(r, true);
                MC_CHECK(twin == m, << what << ": not equal to a matrix with the same cells " << r.show());
            }
        }
    }

    static void access()
    {
        std::size_t rows, cols;
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref r = choose_ref(rows, cols, mc::param("patterns"));
        M m = build(r, mc::flip());
        mc::transition();
        check(m, r, "built");
        check_all(m, r);
    }

    // ---- two matrices -----------------------------------------------------------------

    static void copy_from(M& a, ref& ra, const M& b, const ref& rb)
    {
        a.copy(b);
        for (std::size_t c = 0; c < std::min(ra.cols, rb.cols); ++c)
            for (std::size_t i = 0; i < std::min(ra.rows, rb.rows); ++i)
                ra.at(i, c) = rb.at(i, c);
    }

    static void pair()
    {
        std::size_t rows, cols;
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref ra = choose_ref(rows, cols, mc::param("patterns"));
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref rb = choose_ref(rows, cols, mc::param("patterns"), 50);
        M a = build(ra), b = build(rb);
        mc::transition();
        ref old = ra;
        copy_from(a, ra, b, rb);
        check(a, ra, "copy of a matrix: destination");
        check(b, rb, "copy of a matrix: source");
        MC_CHECK(a == build(ra), << "copy of a matrix: not equal to " << ra.show());
        MC_CHECK((a == b) == same(ra, rb), << "equality of " << ra.show() << " and " << rb.show());
        M c = build(old);
        MC_CHECK((c == b) == same(old, rb), << "equality of " << old.show() << " and " << rb.show());
        c = b;
        check(c, rb, "assigned");
        M d = build(old);
        d.swap(c);
        check(c, old, "swapped");
        check(d, rb, "swapped");
        c = std::move(d);
        check(c, rb, "move-assigned");
    }

    static void history()
    {
        M m[2];
        ref r[2];
        int depth = mc::param("depth");
        for (int d = 0; d < depth; ++d)
        {
            mc::visit(mc::fp{}.add(r[0].fp()).add(r[1].fp()).get(), depth - d);
            const char* what;
            switch (mc::choose(7))
            {
                case 0:
                    what = op(m[0], r[0], 1 + 20 * d, mc::param("newdim"));
                    if (!what)
                        return;
                    break;
                case 1:
                    what = "copy to";
                    MC_NOTE(what);
                    copy_from(m[1], r[1], m[0], r[0]);
                    break;
                case 2:
                    what = "copy from";
                    MC_NOTE(what);
                    copy_from(m[0], r[0], m[1], r[1]);
                    break;
                case 3:
                    what = "assign";
                    MC_NOTE(what);
                    m[1] = m[0];
                    r[1] = r[0];
                    break;
                case 4:
                    what = "move assign";
                    MC_NOTE(what);
                    m[1] = std::move(m[0]);
                    r[1] = r[0];
                    r[0] = ref();
                    if (m[0].size().row * m[0].size().column == 0)
                        r[0] = ref(m[0].size().row, m[0].size().column);
                    break;
                case 5:
                    what = "swap";
                    MC_NOTE(what);
                    m[0].swap(m[1]);
                    std::swap(r[0], r[1]);
                    break;
                default:
                    what = "resize to the size of the other";
                    MC_NOTE(what);
                    m[0].resize(r[1].rows, r[1].cols);
                    r[0] = resized(r[0], r[1].rows, r[1].cols, {});
            }
            if (mc::fresh())
            {
                mc::transition();
                check(m[0], r[0], what);
                check(m[1], r[1], what);
                MC_CHECK((m[0] == m[1]) == same(r[0], r[1]), << what << ": equality");
                M twin = build(r[0], true);
                MC_CHECK(twin == m[0], << what << ": not equal to a matrix with the same cells " << r[0].show());
            }
        }
    }

    // ---- walks --------------------------------------------------------------------------

    /** appends the cells a node delivers */
    static void deliver(const node& nd, std::vector<cell>& out, const std::vector<cell>& expected)
    {
        MC_CHECK(nd.size > 0, << "an empty block is delivered");
        MC_CHECK((nd.data == nullptr) == (nd.type == mdds::mtm::element_empty), << "block data");
        std::size_t at = out.size();
        int t = 0;
        while (t <= Int && mtype(t) != nd.type)
            ++t;
        MC_CHECK(t <= Int, << "block of type " << int(nd.type));
        MC_CHECK(at + nd.size <= expected.size(), << "too many cells are delivered: " << at + nd.size << " instead of " << expected.size());
        auto run = [&](auto it, auto end, auto val) {
            MC_CHECK(std::size_t(std::distance(it, end)) == nd.size, << "begin() and end() of a block are " << std::distance(it, end) << " apart");
            for (std::size_t i = 0; i < nd.size; ++i, ++it)
            {
                MC_CHECK(expected[at + i].type == t, << "cell " << at + i << ": type " << t << " instead of " << expected[at + i].type);
                MC_CHECK(*it == val(expected[at + i].id), << "cell " << at + i << " has a wrong value");
            }
        };
        switch (t)
        {
            case Num:
                run(nd.template begin<typename M::numeric_block_type>(), nd.template end<typename M::numeric_block_type>(), num);
                break;
            case Bool:
                run(nd.template begin<typename M::boolean_block_type>(), nd.template end<typename M::boolean_block_type>(), boo);
                break;
            case Str:
                run(nd.template begin<typename M::string_block_type>(), nd.template end<typename M::string_block_type>(), str);
                break;
            case Int:
                run(nd.template begin<typename M::integer_block_type>(), nd.template end<typename M::integer_block_type>(), integer);
                break;
            default:
                for (std::size_t i = 0; i < nd.size; ++i)
                    MC_CHECK(expected[at + i].type == Empty, << "cell " << at + i << " is delivered as empty");
        }
        for (std::size_t i = 0; i < nd.size; ++i)
            out.push_back(expected[at + i]);
    }

    struct one
    {
        std::vector<cell>* out;
        const std::vector<cell>* expected;
        int calls = 0;
        void operator()(const node& nd)
        {
            ++calls;
            node copy(nd);
            deliver(copy, *out, *expected);
        }
    };

    struct both
    {
        std::vector<cell>*out1, *out2;
        const std::vector<cell>*expected1, *expected2;
        int calls = 0;
        void operator()(const node& a, const node& b)
        {
            ++calls;
            MC_CHECK(a.size == b.size, << "blocks of different sizes are delivered side by side");
            deliver(a, *out1, *expected1);
            deliver(b, *out2, *expected2);
        }
    };

    static std::vector<cell> window(const ref& r, sz s, sz e)
    {
        std::vector<cell> v;
        for (std::size_t c = s.column; c <= e.column; ++c)
            for (std::size_t i = s.row; i <= e.row; ++i)
                v.push_back(r.at(i, c));
        return v;
    }

    template<typename F>
    static void corners(std::size_t rows, std::size_t cols, F f)
    {
        auto edge = [](std::size_t n) {
            std::vector<std::size_t> v;
            for (std::size_t i = 0; i <= n + 1; ++i)
                v.push_back(i);
            v.push_back(npos - 1);
            v.push_back(npos);
            return v;
        };
        for (std::size_t r0 : edge(rows))
            for (std::size_t r1 : edge(rows))
                for (std::size_t c0 : edge(cols))
                    for (std::size_t c1 : edge(cols))
                        f(sz(r0, c0), sz(r1, c1));
    }

    static bool uniform(const ref& r)
    {
        return std::all_of(r.v.begin(), r.v.end(), [&](auto& x) { return x.type == r.v[0].type; });
    }

    static void walk_one()
    {
        std::size_t rows, cols;
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref r = choose_ref(rows, cols, mc::param("patterns"));
        bool wrong = uniform(r) && mc::flip();
        M m = build(r);
        mc::transition();
        if (!wrong)
        {
            std::vector<cell> out;
            one f = m.walk(one{&out, &r.v});
            MC_CHECK(out == r.v, << out.size() << " cells of " << r.show() << " are delivered");
            MC_CHECK(out.empty() == (f.calls == 0), << "the function object returned is not the one used");
        }
        corners(rows, cols, [&](sz s, sz e) {
            bool ok = s.row <= e.row && s.column <= e.column && e.row < rows && e.column < cols;
            if (ok == wrong)
                return;
            std::vector<cell> out, expected;
            if (ok)
            {
                mc::count("windows");
                expected = window(r, s, e);
                one f = m.walk(one{&out, &expected}, s, e);
                MC_CHECK(out == expected, << out.size() << " cells of the window (" << s.row << "," << s.column << ")-(" << e.row << "," << e.column << ") of " << r.show() << " are delivered");
                MC_CHECK(f.calls > 0, << "the function object returned is not the one used");
            }
            else
            {
                mc::count("rejected");
                int calls = 0;
                throws("walk of a window outside the matrix", [&] {
                    m.walk([&](const node&) {
                        if (++calls > 100)
                            mc::fail("walk of a window outside the matrix goes on and on");
                    }, s, e);
                });
            }
        });
        check(m, r, "after the walks");
    }

    static void walk_two()
    {
        std::size_t rows, cols, rows2, cols2;
        choose_dims(rows, cols, mc::param("cells"), mc::param("dim"));
        ref ra = choose_ref(rows, cols, mc::param("patterns"));
        if (mc::flip())
        {
            rows2 = rows;
            cols2 = cols;
        }
        else
            choose_dims(rows2, cols2, mc::param("cells"), mc::param("dim"));
        ref rb = choose_ref(rows2, cols2, mc::param("patterns"), 50);
        bool wrong = uniform(ra) && uniform(rb) && mc::flip();
        M a = build(ra), b = build(rb);
        mc::transition();
        if (!wrong)
        {
            std::vector<cell> o1, o2;
            if (rows == rows2 && cols == cols2)
            {
                a.walk(both{&o1, &o2, &ra.v, &rb.v}, b);
                MC_CHECK(o1 == ra.v && o2 == rb.v, << o1.size() << " cells are delivered of " << ra.show() << " and " << rb.show());
                o1.clear();
                o2.clear();
                a.walk(both{&o1, &o2, &ra.v, &ra.v}, a);
                MC_CHECK(o1 == ra.v && o2 == ra.v, << "walk of a matrix with itself");
            }
            else
                throws("walk with a matrix of another size", [&] { a.walk(both{&o1, &o2, &ra.v, &rb.v}, b); });
        }
        corners(std::max(rows, rows2), std::max(cols, cols2), [&](sz s, sz e) {
            bool ok = s.row <= e.row && s.column <= e.column && e.row < std::min(rows, rows2) && e.column < std::min(cols, cols2);
            if (ok == wrong)
                return;
            if (ok)
            {
                mc::count("windows");
                std::vector<cell> o1, o2, e1 = window(ra, s, e), e2 = window(rb, s, e);
                a.walk(both{&o1, &o2, &e1, &e2}, b, s, e);
                MC_CHECK(o1 == e1 && o2 == e2, << o1.size() << " cells of the window (" << s.row << "," << s.column << ")-(" << e.row << "," << e.column << ") of " << ra.show() << " and " << rb.show() << " are delivered");
            }
            else
            {
                mc::count("rejected");
                int calls = 0;
                throws("walk of a window outside one of the matrices", [&] {
                    a.walk([&](const node&, const node&) {
                        if (++calls > 100)
                            mc::fail("walk of a window outside the matrix goes on and on");
                    }, b, s, e);
                });
            }
        });
    }
};

using fstd = fixture<mdds::mtm::std_string_traits>;
using fown = fixture<own_traits>;

} // namespace

MC_SCENARIO(
    mtm_step, "every matrix of up to N cells with every pattern of types (all five types while the number of patterns allows) x every "
              "operation with every parameter",
    {"split", 2, 2, 2, 2}, {"cells", 6, 9, 4, 6}, {"dim", 4, 4, 3, 4}, {"patterns", 800, 5000, 130, 800}, {"newdim", 3, 4, 2, 3},
    {"depth", 1, 1, 1, 1})
{
    fstd::step();
}

MC_SCENARIO(
    mtm_steps, "two operations in a row, on small matrices", {"split", 2, 2, 2, 2}, {"cells", 2, 4, 1, 2}, {"dim", 2, 2, 2, 2},
    {"patterns", 125, 125, 5, 25}, {"newdim", 2, 2, 1, 1}, {"depth", 2, 2, 2, 2})
{
    fstd::step();
}

MC_SCENARIO(
    mtm_own, "as mtm_step, with 64-bit integers and a string class of the user", {"split", 2, 2, 2, 2}, {"cells", 4, 6, 3, 4},
    {"dim", 3, 3, 2, 3}, {"patterns", 625, 3200, 125, 625}, {"newdim", 2, 3, 2, 3}, {"depth", 1, 1, 1, 1})
{
    fown::step();
}

MC_SCENARIO(
    mtm_access, "every matrix of up to N cells: every wrong type, position past the end, position with hint, and equality with every "
                "matrix that differs in one cell",
    {"split", 3, 3, 3, 3}, {"cells", 6, 8, 4, 6}, {"dim", 4, 4, 3, 3}, {"patterns", 130, 800, 130, 130})
{
    fstd::access();
}

MC_SCENARIO(
    mtm_pair, "every pair of matrices of up to N cells: copy of one into the other, equality, assignment, swap, move",
    {"split", 3, 3, 3, 3}, {"cells", 6, 6, 4, 6}, {"dim", 3, 4, 2, 3}, {"patterns", 30, 260, 25, 30})
{
    fstd::pair();
}

MC_SCENARIO(
    mtm_history, "every history of operations on two matrices from the empty ones", {"split", 2, 2, 2, 2}, {"depth", 3, 4, 2, 3},
    {"newdim", 2, 2, 2, 2})
{
    fstd::history();
}

MC_SCENARIO(
    mtm_walk, "every matrix of up to N cells with every pattern x the whole walk and every window, inside and around the borders",
    {"split", 3, 3, 3, 3}, {"cells", 9, 12, 8, 9}, {"dim", 6, 7, 6, 6}, {"patterns", 3200, 20000, 130, 800})
{
    fstd::walk_one();
}

MC_SCENARIO(
    mtm_walk_two, "every pair of matrices of up to N cells, of the same and of different sizes x the whole walk and every window",
    {"split", 3, 3, 3, 3}, {"cells", 6, 6, 4, 6}, {"dim", 3, 4, 2, 3}, {"patterns", 30, 260, 25, 30})
{
    fstd::walk_two();
}

MC_SCENARIO(
    mtm_walk_own, "as mtm_walk_two, with 64-bit integers and a string class of the user", {"split", 3, 3, 3, 3}, {"cells", 4, 6, 3, 4},
    {"dim", 2, 3, 2, 2}, {"patterns", 25, 30, 8, 25})
{
    fown::walk_two();
}
