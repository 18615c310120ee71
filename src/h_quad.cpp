// point_quad_tree: Q01 (exact map, region search), Q02 (structure, value semantics)
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/point_quad_tree.hpp>

#include <map>
#include <set>

namespace {

using pt = std::pair<int, int>;
using model = std::map<pt, int>;

int val(int v) { return v; }
int val(const counted& v) { return v.get(); }

std::string str(const model& m)
{
    std::ostringstream os;
    for (auto& [p, v] : m)
        os << "(" << p.first << "," << p.second << ")=" << v << " ";
    return os.str();
}

/** bounds that a node's coordinates must respect, half open per quadrant */
struct box
{
    int x1 = -1000, y1 = -1000, x2 = 1000, y2 = 1000; // x1 <= x < x2, y1 <= y < y2
};

template<typename N>
void walk(const N& n, box b, model& out, mc::fp* f, int depth = 0)
{
    if (!n)
    {
        if (f)
            f->add(99);
        return;
    }
    MC_CHECK(depth < 64, << "node traversal does not end");
    int x = int(n.x()), y = int(n.y());
    MC_CHECK(
        b.x1 <= x && x < b.x2 && b.y1 <= y && y < b.y2,
        << "point (" << x << "," << y << ") is not in the quadrant its ancestors dictate");
    MC_CHECK(out.emplace(pt(x, y), val(n.data())).second, << "point (" << x << "," << y << ") reached twice");
    if (f)
        f->add(std::uint64_t(x * 64 + y + 100));
    // west: x < node.x; north: y < node.y
    box ne = b, nw = b, se = b, sw = b;
    ne.x1 = x, ne.y2 = y;
    nw.x2 = x, nw.y2 = y;
    se.x1 = x, se.y1 = y;
    sw.x2 = x, sw.y1 = y;
    walk(n.northeast(), ne, out, f, depth + 1);
    walk(n.northwest(), nw, out, f, depth + 1);
    walk(n.southeast(), se, out, f, depth + 1);
    walk(n.southwest(), sw, out, f, depth + 1);
}

template<typename T>
std::uint64_t structure(const T& t)
{
    mc::fp f;
    model m;
    walk(t.get_node_access(), box(), m, &f);
    return f.get();
}

template<typename T>
void check(const T& t, const model& m, int lo, int hi, const char* who, bool regions = true)
{
    using K = typename T::key_type;
    MC_CHECK(t.size() == m.size(), << who << " size() " << t.size() << ", stored " << str(m));
    MC_CHECK(t.empty() == m.empty(), << who << " empty(), stored " << str(m));
    model w;
    walk(t.get_node_access(), box(), w, nullptr);
    MC_CHECK(w == m, << who << " node walk finds " << str(w) << "; expected " << str(m));

    for (int x = lo - 1; x <= hi + 1; ++x)
        for (int y = lo - 1; y <= hi + 1; ++y)
        {
            auto it = m.find({x, y});
            bool found = true;
            int v = 0;
            try
            {
                v = val(t.find(K(x), K(y)));
            }
            catch (const typename T::data_not_found&)
            {
                found = false;
            }
            MC_CHECK(found == (it != m.end()), << who << " find(" << x << "," << y << "), stored " << str(m));
            MC_CHECK(!found || v == it->second, << who << " find(" << x << "," << y << ") value " << v);
        }
    if (!regions)
        return;
    for (int x1 = lo - 1; x1 <= hi + 1; ++x1)
        for (int x2 = x1; x2 <= hi + 1; ++x2)
            for (int y1 = lo - 1; y1 <= hi + 1; ++y1)
                for (int y2 = y1; y2 <= hi + 1; ++y2)
                {
                    typename T::data_array_type arr;
                    t.search_region(K(x1), K(y1), K(x2), K(y2), arr);
                    auto r = t.search_region(K(x1), K(y1), K(x2), K(y2));
                    std::vector<std::pair<pt, int>> fwd, bwd;
                    for (auto it = r.begin(), e = r.end(); it != e; ++it)
                    {
                        MC_CHECK(fwd.size() <= m.size(), << who << " search_region yields too many points");
                        fwd.push_back({{int(it->first.x), int(it->first.y)}, val(it->second)});
                    }
                    if (!fwd.empty())
                    {
                        auto it = r.end(), b = r.begin();
                        do
                        {
                            --it;
                            bwd.push_back({{int((*it).first.x), int(it->first.y)}, val(it->second)});
                        } while (it != b && bwd.size() <= fwd.size());
                        std::reverse(bwd.begin(), bwd.end());
                    }
                    MC_CHECK(fwd == bwd, << who << " region results differ between forward and backward iteration");
                    std::vector<int> got, exp;
                    for (const auto& v : arr)
                        got.push_back(val(v));
                    std::sort(got.begin(), got.end());
                    std::sort(fwd.begin(), fwd.end());
                    std::vector<std::pair<pt, int>> e2;
                    for (auto& [p, v] : m)
                        if (x1 <= p.first && p.first <= x2 && y1 <= p.second && p.second <= y2)
                        {
                            e2.push_back({p, v});
                            exp.push_back(v);
                        }
                    std::sort(exp.begin(), exp.end());
                    MC_CHECK(
                        fwd == e2, << who << " search_region(" << x1 << "," << y1 << "," << x2 << "," << y2 << "), stored "
                                   << str(m));
                    MC_CHECK(
                        got == exp, << who << " search_region to array (" << x1 << "," << y1 << "," << x2 << "," << y2
                                    << "), stored " << str(m));
                }
}

template<typename T, typename V>
void equality(const T& t, const model& m)
{
    using K = typename T::key_type;
    auto cmp = [&](const model& o, bool exp, bool rev) {
        T u;
        if (rev)
            for (auto it = o.rbegin(); it != o.rend(); ++it)
                u.insert(K(it->first.first), K(it->first.second), V(it->second));
        else
            for (auto& [p, v] : o)
                u.insert(K(p.first), K(p.second), V(v));
        MC_CHECK((t == u) == exp, << "comparison of " << str(m) << " with " << str(o));
        MC_CHECK((u == t) == exp, << "comparison of " << str(o) << " with " << str(m));
    };
    cmp(m, true, false);
    cmp(m, true, true);
    for (auto& [p, v] : m)
    {
        model o(m);
        o.erase(p);
        cmp(o, false, false);
        o = m;
        o[p] = v + 1000;
        cmp(o, false, false);
        o.erase(p);
        o[pt(p.first + 20, p.second)] = v;
        cmp(o, false, true);
        o = m;
        o[pt(p.first, p.second + 20)] = v;
        cmp(o, false, true);
    }
}

template<typename K, typename V>
void history(int lo, int g, int depth, int vals_in_fp)
{
    using T = mdds::point_quad_tree<K, V>;
    T t;
    model m;
    int hi = lo + g - 1;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(2 * g * g);
        int c = op % (g * g);
        int x = lo + c / g, y = lo + c % g;
        if (op < g * g)
        {
            int v = c * 100 + i;
            t.insert(K(x), K(y), V(v));
            m[{x, y}] = v;
            MC_NOTE("insert (" << x << "," << y << ")");
        }
        else
        {
            t.remove(K(x), K(y));
            m.erase({x, y});
            MC_NOTE("remove (" << x << "," << y << ")");
        }
        mc::transition();
        if (mc::fresh())
        {
            std::uint64_t f = structure(t);
            if (mc::state(f))
            {
                check(t, m, lo, hi, "tree");
                equality<T, V>(t, m);
            }
            else
                check(t, m, lo, hi, "tree", false);
        }
        mc::visit(structure(t), depth - 1 - i);
    }
}

} // namespace

MC_SCENARIO(
    quad_history, "all insert/overwrite/remove histories to a depth over a g x g grid; all tree shapes reached are pruned by structure",
    {"g", 3, 3, 3, 3}, {"depth", 7, 9, 5, 6}, {"split", 2, 2, 2, 2})
{
    history<int, int>(-1, mc::param("g"), mc::param("depth"), 0);
}

MC_SCENARIO(
    quad_wide, "histories over a larger grid (more distinct coordinates), heap values, floating point keys",
    {"g", 4, 4, 4, 4}, {"depth", 5, 6, 3, 4}, {"split", 2, 2, 2, 2})
{
    history<double, counted>(-1, mc::param("g"), mc::param("depth"), 0);
}

MC_SCENARIO(
    quad_shape, "every tree shape from every permutation of n fixed points in general position, then every removal sequence",
    {"n", 8, 9, 6, 7}, {"rm", 2, 3, 2, 2}, {"split", 3, 3, 3, 3})
{
    // distinct x and y coordinates: removal has to repair every arrangement
    static const int xs[] = {3, 0, 5, 1, 6, 2, 4, 8, 7}, ys[] = {3, 5, 0, 1, 4, 7, 2, 6, 8};
    using T = mdds::point_quad_tree<int, counted>;
    int n = mc::param("n");
    T t;
    model m;
    std::vector<int> left;
    for (int i = 0; i < n; ++i)
        left.push_back(i);
    while (!left.empty())
    {
        int k = mc::choose(int(left.size()));
        int c = left[k];
        left.erase(left.begin() + k);
        t.insert(xs[c], ys[c], counted(c));
        m[{xs[c], ys[c]}] = c;
    }
    MC_NOTE("points inserted, shape " << structure(t));
    mc::visit(structure(t), 10);
    mc::state(structure(t));
    int rm = mc::param("rm");
    for (int i = 0; i < rm; ++i)
    {
        auto it = std::next(m.begin(), mc::choose(int(m.size())));
        pt p = it->first;
        MC_NOTE("remove (" << p.first << "," << p.second << ")");
        t.remove(p.first, p.second);
        m.erase(it);
        mc::transition();
        if (mc::fresh())
            check(t, m, 0, 8, "tree", i == 0);
    }
    // and a point comes back
    t.insert(3, 3, counted(77));
    m[{3, 3}] = 77;
    check(t, m, 0, 8, "tree", false);
}

MC_SCENARIO(
    quad_pair, "all histories of two trees: insert, remove, copy, assign, self-assign, swap, clear", {"depth", 6, 8, 4, 6},
    {"split", 2, 2, 2, 2})
{
    using T = mdds::point_quad_tree<int, counted>;
    T t[2];
    model m[2];
    int depth = mc::param("depth");
    static const pt pts[] = {{1, 1}, {0, 0}, {2, 1}, {1, 2}};
    for (int i = 0; i < depth; ++i)
    {
        int k = mc::choose(2);
        int op = mc::choose(4 + 4 + 6);
        T& a = t[k];
        T& b = t[k ^ 1];
        MC_NOTE("op " << op << " on tree " << k);
        if (op < 4)
        {
            a.insert(pts[op].first, pts[op].second, counted(op * 10 + (i & 1)));
            m[k][pts[op]] = op * 10 + (i & 1);
        }
        else if (op < 8)
        {
            a.remove(pts[op - 4].first, pts[op - 4].second);
            m[k].erase(pts[op - 4]);
        }
        else if (op == 8)
        {
            b = a;
            m[k ^ 1] = m[k];
        }
        else if (op == 9)
        {
            T c(a);
            MC_CHECK(c == a, << "copy");
            c.swap(b);
            m[k ^ 1] = m[k];
        }
        else if (op == 10)
        {
            const T& self = a;
            a = self;
        }
        else if (op == 11)
        {
            if (k)
                throw mc::prune();
            a.swap(b);
            std::swap(m[0], m[1]);
        }
        else if (op == 12)
        {
            a.clear();
            m[k].clear();
        }
        else
        {
            T c(std::move(a)); // a is valid but unspecified afterwards
            a = c;
        }
        mc::transition();
        std::uint64_t f = structure(t[0]) * 31 + structure(t[1]);
        for (auto& x : m)
            for (auto& [p, v] : x)
                f = f * 1000003 + v;
        mc::state(f);
        if (mc::fresh())
        {
            check(t[0], m[0], 0, 2, "tree 0", false);
            check(t[1], m[1], 0, 2, "tree 1", false);
            MC_CHECK((t[0] == t[1]) == (m[0] == m[1]), << "equality of " << str(m[0]) << " and " << str(m[1]));
            MC_CHECK((t[1] == t[0]) == (m[0] == m[1]), << "equality of " << str(m[1]) << " and " << str(m[0]));
        }
        mc::visit(f, depth - 1 - i);
    }
}
