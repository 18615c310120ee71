// rtree: R01 (search against brute force), R02 (node invariants), R03 (copies, moves, bulk loads)
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/rtree.hpp>

#include <map>

namespace {

template<std::size_t Dim, std::size_t Min, std::size_t Max, bool Reins, std::size_t RS>
struct traits
{
    static constexpr std::size_t dimensions = Dim;
    static constexpr std::size_t min_node_size = Min;
    static constexpr std::size_t max_node_size = Max;
    static constexpr std::size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = Reins;
    static constexpr std::size_t reinsertion_size = RS;
};

struct box
{
    int x1, y1, x2, y2;
    auto operator<=>(const box&) const = default;
};

std::ostream& operator<<(std::ostream& os, const box& b)
{
    return os << "(" << b.x1 << "," << b.y1 << ")-(" << b.x2 << "," << b.y2 << ")";
}

struct obj
{
    box b;
    int id;
};

// value types -----------------------------------------------------------------

struct move_only
{
    counted c;
    explicit move_only(int v) : c(v) {}
    move_only(const move_only&) = delete;
    move_only(move_only&&) = default;
};

struct copy_only
{
    counted c;
    explicit copy_only(int v) : c(v) {}
    copy_only(const copy_only& o) : c(o.c) {}
};

int val(const counted& c) { return c.get(); }
int val(const move_only& c) { return c.c.get(); }
int val(const copy_only& c) { return c.c.get(); }

// -----------------------------------------------------------------------------

template<typename Tr, typename V>
struct fixture
{
    using tree = mdds::rtree<int, V, Tr>;
    using P = typename tree::point_type;
    using E = typename tree::extent_type;
    using ST = typename tree::search_type;
    static constexpr std::size_t dim = Tr::dimensions;

    static P pt(int x, int y)
    {
        if constexpr (dim == 1)
            return P{x};
        else
            return P{x, y};
    }
    static E ext(const box& b) { return E(pt(b.x1, b.y1), pt(b.x2, b.y2)); }
    static box norm(box b)
    {
        if constexpr (dim == 1)
            b.y1 = b.y2 = 0;
        return b;
    }
    static box from(const E& e)
    {
        if constexpr (dim == 1)
            return {e.start.d[0], 0, e.end.d[0], 0};
        else
            return {e.start.d[0], e.start.d[1], e.end.d[0], e.end.d[1]};
    }

    static bool overlap(const box& a, const box& b)
    {
        return a.x1 <= b.x2 && b.x1 <= a.x2 && (dim == 1 || (a.y1 <= b.y2 && b.y1 <= a.y2));
    }

    using res = std::vector<std::tuple<int, box, std::size_t>>;

    template<typename R>
    static res collect(R r)
    {
        res out, bwd;
        auto b = r.begin(), e = r.end();
        for (auto it = b; it != e; ++it)
            out.emplace_back(val(*it), from(it.extent()), it.depth());
        for (auto it = e; it != b;)
        {
            --it;
            bwd.emplace_back(val(*it), from(it.extent()), it.depth());
        }
        std::reverse(bwd.begin(), bwd.end());
        MC_CHECK(out == bwd, << "results differ between forward and backward iteration");
        std::sort(out.begin(), out.end());
        return out;
    }

    static std::string str(const std::vector<obj>& m)
    {
        std::ostringstream os;
        for (auto& o : m)
            os << o.id << ":" << o.b << " ";
        return os.str();
    }

    static void compare(const res& got, const std::vector<obj>& m, std::size_t depth, auto pred, auto&& what)
    {
        res exp;
        for (auto& o : m)
            if (pred(o))
                exp.emplace_back(o.id, o.b, depth);
        std::sort(exp.begin(), exp.end());
        if (got != exp)
        {
            std::ostringstream os;
            os << "search " << what << " found";
            for (auto& [i, b, d] : got)
                os << " " << i << ":" << b << "@" << d;
            os << "; expected";
            for (auto& [i, b, d] : exp)
                os << " " << i << ":" << b << "@" << d;
            os << "; stored " << str(m);
            mc::fail(os.str());
        }
    }

    struct shape
    {
        int level;
        char type; // 'N' non-leaf, 'L' leaf directory, 'v'
        std::size_t children = 0;
    };

    /** structure of the tree from its textual export: returns the value depth */
    static std::size_t structure(const tree& t, const std::vector<obj>& m, bool check_min, mc::fp* f = nullptr)
    {
        std::string s = t.export_tree(tree::export_tree_type::formatted_node_properties);
        if (f)
        {
            // without the node labels, which follow from the structure
            f->add(s);
        }
        std::vector<shape> nodes;
        std::vector<std::size_t> stack;
        std::size_t vdepth = 0, nvalues = 0;
        for (std::size_t p = 0; p < s.size();)
        {
            std::size_t e = s.find('\n', p);
            std::size_t ind = s.find_first_not_of(' ', p) - p;
            std::size_t ty = s.find("type: ", p) + 6;
            shape n;
            n.level = int(ind / 4);
            n.type = s.compare(ty, 5, "value") == 0 ? 'v' : s.compare(ty, 14, "directory-leaf") == 0 ? 'L' : 'N';
            stack.resize(n.level);
            if (n.level)
            {
                shape& par = nodes[stack.back()];
                ++par.children;
                char exp = n.type == 'v' ? 'L' : 'N';
                MC_CHECK(par.type == exp, << "wrong kind of parent in\n" << s);
            }
            else
                MC_CHECK(nodes.empty(), << "more than one root in\n" << s);
            if (n.type == 'v')
            {
                ++nvalues;
                MC_CHECK(!vdepth || vdepth == std::size_t(n.level), << "values at different depths in\n" << s);
                vdepth = n.level;
            }
            stack.push_back(nodes.size());
            nodes.push_back(n);
            p = e + 1;
        }
        MC_CHECK(nvalues == m.size(), << "number of value nodes in\n" << s);
        for (std::size_t i = 0; i < nodes.size(); ++i)
        {
            if (nodes[i].type == 'v')
                continue;
            MC_CHECK(nodes[i].children <= Tr::max_node_size, << "overfull directory in\n" << s);
            if (i && check_min)
                MC_CHECK(nodes[i].children >= Tr::min_node_size, << "underfilled directory in\n" << s);
            if (i)
                MC_CHECK(nodes[i].children > 0, << "empty directory in\n" << s);
            if (!i && nodes[i].type == 'N')
                MC_CHECK(nodes[i].children > 0, << "non-leaf root without children in\n" << s);
        }
        return vdepth;
    }

    static void check(tree& t, const std::vector<obj>& m, bool check_min, bool full, const char* who)
    {
        const tree& ct = t;
        MC_CHECK(ct.size() == m.size(), << who << " size() " << ct.size() << ", stored " << str(m));
        MC_CHECK(ct.empty() == m.empty(), << who << " empty()");
        typename tree::integrity_check_properties props;
        props.throw_on_first_error = true;
        // bulk loading may underfill; a split root may hold fewer children than the minimum
        props.error_on_min_node_size = check_min && Tr::min_node_size <= 2;
        std::streambuf* old = std::cout.rdbuf(nullptr); // an underfilled node that is tolerated is reported on stdout
        try
        {
            ct.check_integrity(props);
        }
        catch (const mdds::integrity_error& e)
        {
            std::cout.rdbuf(old);
            mc::fail(std::string(who) + " check_integrity: " + e.what() + "; stored " + str(m));
        }
        std::cout.rdbuf(old);
        std::size_t depth = structure(ct, m, check_min);
        box root{0, 0, 0, 0};
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            const box& b = m[i].b;
            root = i ? box{std::min(root.x1, b.x1), std::min(root.y1, b.y1), std::max(root.x2, b.x2), std::max(root.y2, b.y2)}
                     : b;
        }
        MC_CHECK(from(ct.extent()) == root, << who << " extent() is " << from(ct.extent()) << ", stored " << str(m));

        std::map<box, int> walked, exp;
        ct.walk([&](const typename tree::node_properties& np) {
            if (np.type == tree::node_type::value)
                ++walked[from(np.extent)];
        });
        for (auto& o : m)
            ++exp[o.b];
        MC_CHECK(walked == exp, << who << " walk() does not visit the stored values, stored " << str(m));

        auto query = [&](const box& q0) {
            box q = norm(q0);
            auto ov = [&](const obj& o) { return overlap(o.b, q); };
            auto eq = [&](const obj& o) { return o.b == q; };
            compare(collect(ct.search(ext(q), ST::overlap)), m, depth, ov, q);
            compare(collect(ct.search(ext(q), ST::match)), m, depth, eq, q);
            compare(collect(t.search(ext(q), ST::overlap)), m, depth, ov, q);
            compare(collect(t.search(ext(q), ST::match)), m, depth, eq, q);
            if (q.x1 == q.x2 && q.y1 == q.y2)
            {
                P p = pt(q.x1, q.y1);
                compare(collect(ct.search(p, ST::overlap)), m, depth, ov, q);
                compare(collect(ct.search(p, ST::match)), m, depth, eq, q);
                compare(collect(t.search(p, ST::overlap)), m, depth, ov, q);
                compare(collect(t.search(p, ST::match)), m, depth, eq, q);
            }
        };
        query({-100, -100, 100, 100});
        if (!full)
            return;
        for (auto& o : m)
        {
            query(o.b);
            query({o.b.x1, o.b.y1, o.b.x1, o.b.y1});
            query({o.b.x2, o.b.y2, o.b.x2 + 1, o.b.y2 + 1});
        }
        query({root.x1 - 1, root.y1 - 1, root.x1 - 1, root.y1 - 1});
        query({root.x2 + 1, root.y1, root.x2 + 2, root.y2});
        query({root.x1, root.y1, (root.x1 + root.x2) / 2, (root.y1 + root.y2) / 2});
        query({0, 0, 0, 0});
        query({1, 1, 2, 3});
    }

    static void insert(tree& t, std::vector<obj>& m, box b, int id, int how)
    {
        b = norm(b);
        bool point = b.x1 == b.x2 && b.y1 == b.y2;
        if constexpr (std::is_same_v<V, move_only>)
        {
            if (point)
                t.insert(pt(b.x1, b.y1), V(id));
            else
                t.insert(ext(b), V(id));
        }
        else
        {
            const V v(id);
            if (point && how)
                t.insert(pt(b.x1, b.y1), v);
            else if (point)
                t.insert(pt(b.x1, b.y1), V(id));
            else if (how)
                t.insert(ext(b), v);
            else
                t.insert(ext(b), V(id));
        }
        m.push_back({b, id});
        MC_NOTE("insert " << id << ":" << b);
    }

    /** erase the k-th object of the model; how: through const or mutable search results */
    static void erase(tree& t, std::vector<obj>& m, std::size_t k, int how)
    {
        MC_NOTE("erase " << m[k].id << ":" << m[k].b);
        if (how)
        {
            auto r = t.search(ext(m[k].b), ST::match);
            auto it = r.begin();
            while (it != r.end() && val(*it) != m[k].id)
                ++it;
            MC_CHECK(it != r.end(), << "object " << m[k].id << " is not found");
            t.erase(it);
        }
        else
        {
            auto r = static_cast<const tree&>(t).search(ext(m[k].b), ST::overlap);
            auto it = r.cbegin();
            while (it != r.cend() && val(*it) != m[k].id)
                ++it;
            MC_CHECK(it != r.cend(), << "object " << m[k].id << " is not found");
            t.erase(it);
        }
        m.erase(m.begin() + k);
    }

    static box pattern(int kind, int i)
    {
        switch (kind)
        {
            case 0: // scattered points
                return {(i * 7) % 13, (i * 5) % 11, (i * 7) % 13, (i * 5) % 11};
            case 1: // diagonal, ascending boxes
                return {i, i, i + 1 + i % 2, i + 1};
            case 2: // nested boxes
                return {-i, -i, i, i};
            default: // identical and overlapping boxes
                return {i % 3, 0, 2 + i % 2, 1};
        }
    }

    /** empty the tree one object at a time */
    static void drain(tree& t, std::vector<obj>& m, int order, bool check_min)
    {
        while (!m.empty())
        {
            std::size_t k = order == 0 ? 0 : order == 1 ? m.size() - 1 : m.size() / 2;
            erase(t, m, k, order & 1);
            check(t, m, check_min, m.size() < 4, "draining");
        }
    }

    /** base tree x every sequence of operations x draining */
    static void run(int kmax, int depth)
    {
        tree t;
        std::vector<obj> m;
        int kind = mc::choose(4);
        int k = mc::choose(kmax + 1);
        int how = mc::choose(3); // inserted, bulk loaded, inserted into a copy
        bool check_min = true;
        int id = 0;
        if (how == 1)
        {
            typename tree::bulk_loader l;
            for (; id < k; ++id)
            {
                box b = norm(pattern(kind, id));
                if (b.x1 == b.x2 && b.y1 == b.y2)
                    l.insert(pt(b.x1, b.y1), V(id));
                else
                    l.insert(ext(b), V(id));
                m.push_back({b, id});
            }
            t = l.pack();
            check_min = false;
            MC_NOTE("bulk load of " << k << " objects, pattern " << kind);
        }
        else
            for (; id < k; ++id)
            {
                insert(t, m, pattern(kind, id), id, id & 1);
                if (mc::fresh())
                    check(t, m, check_min, false, "building");
            }
        if (mc::fresh())
            check(t, m, check_min, true, "base tree");
        if (how == 2)
        {
            if constexpr (!std::is_same_v<V, move_only>)
            {
                tree c(t);
                check(c, m, check_min, false, "copy");
                t = std::move(c);
            }
            else
            {
                tree c(std::move(t));
                t.swap(c);
            }
        }
        static const box extra[] = {{0, 0, 0, 0}, {3, 3, 5, 4}, {-5, 6, -4, 20}, {1, 1, 1, 1}};
        for (int i = 0; i < depth; ++i)
        {
            int op = mc::choose(4 + int(m.size()));
            if (op < 4)
                insert(t, m, extra[op], id++, i & 1);
            else
                erase(t, m, op - 4, i & 1);
            mc::transition();
            if (mc::fresh())
            {
                mc::fp f;
                structure(t, m, false, &f);
                mc::state(f.get());
                check(t, m, check_min, i + 1 == depth, "tree");
            }
        }
        drain(t, m, mc::choose(3), check_min);
        insert(t, m, {1, 2, 3, 4}, 99, 0);
        check(t, m, check_min, true, "drained tree in use again");
    }

    /** all histories from the empty tree */
    static void history(int depth)
    {
        tree t;
        std::vector<obj> m;
        static const box boxes[] = {{0, 0, 0, 0}, {2, 0, 3, 1}, {0, 3, 1, 3}, {5, 5, 5, 5}};
        for (int i = 0; i < depth; ++i)
        {
            int op = mc::choose(4 + int(m.size()));
            if (op < 4)
                insert(t, m, boxes[op], i, i & 1);
            else
                erase(t, m, op - 4, i & 1);
            mc::transition();
            mc::fp f;
            structure(t, m, true, &f);
            for (auto& o : m)
                f.add(std::uint64_t(o.b.x1 * 10 + o.b.y1));
            if (mc::fresh())
            {
                mc::state(f.get());
                check(t, m, true, true, "tree");
            }
        }
        drain(t, m, mc::choose(2), true);
    }
};

} // namespace

#define RT(NAME, WHAT, ...)                                                                                            \
    MC_SCENARIO(NAME, "base trees of 0..k objects (4 patterns; inserted, bulk loaded or copied) x every operation sequence " \
                      "x draining in 3 orders; " WHAT, __VA_ARGS__)

RT(rt_bin, "2-d, 1..2 children per node, forced reinsertion of 1 (deep trees)", {"k", 13, 20, 9, 12}, {"depth", 2, 2, 1, 2},
   {"split", 3, 3, 3, 3})
{
    fixture<traits<2, 1, 2, true, 1>, counted>::run(mc::param("k"), mc::param("depth"));
}

RT(rt_24, "2-d, 2..4 children per node, forced reinsertion of 1, values that can only be moved", {"k", 18, 30, 14, 20},
   {"depth", 2, 2, 1, 1}, {"split", 3, 3, 3, 3})
{
    fixture<traits<2, 2, 4, true, 1>, move_only>::run(mc::param("k"), mc::param("depth"));
}

RT(rt_24n, "2-d, 2..4 children per node, no forced reinsertion, values that can only be copied", {"k", 18, 34, 14, 20},
   {"depth", 2, 2, 1, 1}, {"split", 3, 3, 3, 3})
{
    fixture<traits<2, 2, 4, false, 1>, copy_only>::run(mc::param("k"), mc::param("depth"));
}

RT(rt_37, "1-d, 3..7 children per node, forced reinsertion of 3", {"k", 24, 60, 16, 30}, {"depth", 1, 2, 1, 1},
   {"split", 3, 3, 3, 3})
{
    fixture<traits<1, 3, 7, true, 3>, counted>::run(mc::param("k"), mc::param("depth"));
}

MC_SCENARIO(
    rt_history, "all insert/erase histories from the empty tree to a depth, 2-d, 1..2 or 2..4 children per node",
    {"depth", 6, 7, 5, 6}, {"split", 3, 3, 3, 3})
{
    if (mc::flip())
        fixture<traits<2, 1, 2, true, 1>, counted>::history(mc::param("depth"));
    else
        fixture<traits<2, 2, 4, true, 2>, counted>::history(mc::param("depth"));
}

MC_SCENARIO(
    rt_bulk, "bulk loads of every size 0..k with min/max 2..4, 3..7, 1..2 in 1 and 2 dimensions x insert/erase afterwards",
    {"k", 70, 200, 40, 90}, {"split", 2, 2, 2, 2})
{
    int cfg = mc::choose(4);
    int k = mc::choose(mc::param("k") + 1);
    int kind = mc::choose(4);
    auto go = [&](auto fx, auto mk) {
        using F = decltype(fx);
        using T = typename F::tree;
        typename T::bulk_loader l;
        std::vector<obj> m;
        for (int i = 0; i < k; ++i)
        {
            box b = F::norm(F::pattern(kind, i));
            const auto v = mk(i);
            if (b.x1 == b.x2 && b.y1 == b.y2)
                l.insert(F::pt(b.x1, b.y1), v);
            else
                l.insert(F::ext(b), v);
            m.push_back({b, i});
        }
        T t(l.pack());
        mc::transition();
        F::check(t, m, false, true, "bulk loaded tree");
        int end = mc::choose(4);
        if (end == 3)
        {
            // the loader is empty again
            T u(l.pack());
            std::vector<obj> none;
            F::check(u, none, false, true, "second pack()");
            for (int i = 0; i < 10; ++i)
            {
                F::insert(t, m, F::pattern(kind ^ 1, i), 1000 + i, i & 1);
                F::check(t, m, false, false, "bulk loaded tree after insertion");
            }
        }
        else
            F::drain(t, m, end, false);
    };
    auto mk = [](int i) { return counted(i); };
    switch (cfg)
    {
        case 0:
            go(fixture<traits<2, 2, 4, true, 1>, counted>(), mk);
            break;
        case 1:
            go(fixture<traits<2, 3, 7, true, 2>, counted>(), mk);
            break;
        case 2:
            go(fixture<traits<2, 1, 2, false, 1>, counted>(), mk);
            break;
        default:
            go(fixture<traits<1, 2, 5, true, 2>, counted>(), mk);
    }
}

MC_SCENARIO(
    rt_pair, "all histories of two trees: insert, erase, copy, move, assign, self-assign, swap, clear, bulk load",
    {"depth", 4, 5, 3, 4}, {"split", 2, 2, 2, 2})
{
    using F = fixture<traits<2, 1, 2, true, 1>, counted>;
    using T = F::tree;
    T t[2];
    std::vector<obj> m[2];
    int id = 0;
    for (int i = 0; i < 5; ++i, ++id)
        F::insert(t[0], m[0], F::pattern(0, i), id, i & 1);
    int depth = mc::param("depth");
    for (int i = 0; i < depth; ++i)
    {
        int k = mc::choose(2);
        int op = mc::choose(10);
        T& a = t[k];
        T& b = t[k ^ 1];
        MC_NOTE("op " << op << " on tree " << k);
        switch (op)
        {
            case 0:
                F::insert(a, m[k], F::pattern(1, id), id, i & 1);
                ++id;
                break;
            case 1:
            case 2:
                if (m[k].empty())
                    throw mc::prune();
                F::erase(a, m[k], op == 1 ? 0 : m[k].size() - 1, i & 1);
                break;
            case 3:
                b = a;
                m[k ^ 1] = m[k];
                break;
            case 4:
                b = std::move(a);
                m[k ^ 1] = m[k];
                m[k].clear();
                break;
            case 5:
                a.swap(b);
                std::swap(m[0], m[1]);
                break;
            case 6:
                a.clear();
                m[k].clear();
                break;
            case 7:
            {
                const T& self = a;
                a = self;
                break;
            }
            case 8:
            {
                T c(a);
                T d(std::move(c));
                std::vector<obj> none;
                F::check(c, none, true, false, "moved-from");
                F::insert(c, none, {1, 1, 2, 2}, 500, 0);
                F::check(c, none, true, false, "moved-from, in use again");
                a.clear();
                a = std::move(d);
                break;
            }
            default:
            {
                T::bulk_loader l;
                m[k].clear();
                for (int j = 0; j < 5; ++j, ++id)
                {
                    l.insert(F::ext(F::pattern(1, j)), counted(id));
                    m[k].push_back({F::pattern(1, j), id});
                }
                a = l.pack();
            }
        }
        mc::transition();
        if (mc::fresh())
        {
            mc::fp f;
            F::structure(t[0], m[0], false, &f);
            F::structure(t[1], m[1], false, &f);
            mc::state(f.get());
            F::check(t[0], m[0], false, false, "tree 0");
            F::check(t[1], m[1], false, false, "tree 1");
        }
    }
    F::drain(t[0], m[0], 2, false);
    F::check(t[1], m[1], false, true, "tree 1 after draining tree 0");
    F::drain(t[1], m[1], 0, false);
}

MC_SCENARIO(rt_points, "points given by initializer lists of every length", {"split", 1, 1, 1, 1})
{
    using T = mdds::rtree<int, int, traits<3, 2, 4, true, 1>>;
    using P = T::point_type;
    alignas(P) unsigned char buf[sizeof(P)];
    int fill = mc::choose(2);
    std::memset(buf, fill ? 0x5a : 0, sizeof buf);
    int n = mc::choose(5);
    bool thrown = false;
    P* p = nullptr;
    try
    {
        switch (n)
        {
            case 0:
                p = new (buf) P(std::initializer_list<int>{});
                break;
            case 1:
                p = new (buf) P({7});
                break;
            case 2:
                p = new (buf) P({7, 8});
                break;
            case 3:
                p = new (buf) P({7, 8, 9});
                break;
            default:
                p = new (buf) P({7, 8, 9, 10});
        }
    }
    catch (const std::range_error&)
    {
        thrown = true;
    }
    MC_CHECK(thrown == (n > 3), << "point from " << n << " coordinates");
    mc::transition();
    if (!thrown)
        for (int i = 0; i < 3; ++i)
            MC_CHECK(p->d[i] == (i < n ? 7 + i : 0), << "coordinate " << i << " of a point given by " << n);
}
