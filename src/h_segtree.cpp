// segment_tree: S01 (stabbing queries), S02 (erasure, copies, moves, equality)
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/segment_tree.hpp>

#include <set>

namespace {

struct seg
{
    int s, e, v;
    auto operator<=>(const seg&) const = default;
};

std::ostream& operator<<(std::ostream& os, const seg& x) { return os << "[" << x.s << "," << x.e << ")=" << x.v; }

std::string str(const std::vector<seg>& l)
{
    std::ostringstream os;
    for (const seg& x : l)
        os << x << " ";
    return os.str();
}

template<typename V>
V mk(int v)
{
    return V(v);
}
int val(int v) { return v; }
int val(const counted& v) { return v.get(); }

struct model
{
    std::vector<seg> l;
    bool valid = false;
};

std::uint64_t fpr(const model& m)
{
    mc::fp f;
    for (const seg& x : m.l)
        f.add(std::uint64_t(x.s * 10000 + x.e * 100 + x.v));
    return f.add(m.valid).get();
}

template<typename K, typename V>
using tree = mdds::segment_tree<K, V>;

template<typename K, typename V>
std::vector<seg> collect(const tree<K, V>& t, K key)
{
    auto r = t.search(key);
    std::vector<seg> fwd, bwd;
    for (auto it = r.begin(), e = r.end(); it != e; ++it)
        fwd.push_back({int(it->start), int(it->end), val(it->value)});
    if (!fwd.empty())
    {
        auto it = r.end(), b = r.begin();
        do
        {
            --it;
            bwd.push_back({int(it->start), int(it->end), val((*it).value)});
        } while (it != b && bwd.size() <= fwd.size());
        std::reverse(bwd.begin(), bwd.end());
    }
    MC_CHECK(fwd == bwd, << "forward and backward iteration of the results differ: " << str(fwd) << " / " << str(bwd));
    MC_CHECK(r.size() == fwd.size(), << "size() of the results");
    MC_CHECK(r.empty() == fwd.empty(), << "empty() of the results");
    return fwd;
}

template<typename K, typename V>
void check(const tree<K, V>& t, const model& m, int lo, int hi, const char* who)
{
    MC_CHECK(t.valid_tree() == m.valid, << who << " valid_tree, segments " << str(m.l));
    MC_CHECK(t.size() == m.l.size(), << who << " size() is " << t.size() << ", stored " << str(m.l));
    MC_CHECK(t.empty() == m.l.empty(), << who << " empty(), stored " << str(m.l));
    std::set<int> keys;
    for (const seg& x : m.l)
    {
        keys.insert(x.s);
        keys.insert(x.e);
    }
    std::vector<int> kv(keys.begin(), keys.end()), tv;
    for (auto k : t.boundary_keys())
        tv.push_back(int(k));
    MC_CHECK(kv == tv, << who << " boundary_keys(), stored " << str(m.l));

    for (int k = lo - 1; k <= hi + 1; ++k)
    {
        std::vector<seg> got = collect<K, V>(t, K(k));
        if (!m.valid)
            continue;
        std::vector<seg> exp;
        for (const seg& x : m.l)
            if (x.s <= k && k < x.e)
                exp.push_back(x);
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        MC_CHECK(got == exp, << who << " search(" << k << ") gives " << str(got) << "; expected " << str(exp));
    }
}

template<typename K, typename V>
void insert(tree<K, V>& t, model& m, seg x)
{
    bool thrown = false;
    try
    {
        t.insert(K(x.s), K(x.e), mk<V>(x.v));
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    MC_CHECK(thrown == (x.s >= x.e), << "insert of " << x);
    if (!thrown)
    {
        m.l.push_back(x);
        m.valid = false;
    }
}

template<typename K, typename V>
void build(tree<K, V>& t, model& m)
{
    t.build_tree();
    m.valid = !m.l.empty();
    std::set<int> keys;
    for (const seg& x : m.l)
    {
        keys.insert(x.s);
        keys.insert(x.e);
    }
    MC_CHECK(!m.valid || t.leaf_size() == keys.size(), << "leaf_size() after build of " << str(m.l));
}

/** erase through an iterator: the i-th result of the search for key */
template<typename K, typename V>
bool erase_it(tree<K, V>& t, model& m, int key, int i)
{
    auto r = t.search(K(key));
    if (std::size_t(i) >= r.size())
        return false;
    auto it = r.begin();
    for (int k = 0; k < i; ++k)
        ++it;
    seg x{int(it->start), int(it->end), val(it->value)};
    auto p = std::find(m.l.begin(), m.l.end(), x);
    MC_CHECK(p != m.l.end(), << "search returned " << x << " which is not stored");
    m.l.erase(p);
    MC_NOTE("erase iterator at " << x);
    t.erase(it);
    return true;
}

/** predicate p over (start, end, value) */
template<typename K, typename V>
void erase_pred(tree<K, V>& t, model& m, int key, int v)
{
    auto pred = [&](int s, int e, int w) { return (key < -9 || (s <= key && key < e)) && (v < 0 || w == v); };
    std::size_t exp = std::erase_if(m.l, [&](const seg& x) { return pred(x.s, x.e, x.v); });
    std::size_t n =
        t.erase_if([&](K s, K e, const V& w) { return pred(int(s), int(e), val(w)); });
    MC_CHECK(n == exp, << "erase_if returned " << n << ", expected " << exp);
}

template<typename K, typename V>
void equality(const tree<K, V>& t, const model& m)
{
    auto cmp = [&](const std::vector<seg>& o, bool exp, const char* what) {
        tree<K, V> r;
        for (auto it = o.rbegin(); it != o.rend(); ++it)
            r.insert(K(it->s), K(it->e), mk<V>(it->v));
        if (m.valid)
            r.build_tree();
        if (r.valid_tree() != m.valid)
            return; // the state of the tree part takes part in the comparison
        MC_CHECK((t == r) == exp, << what << ": " << str(m.l) << " against " << str(o));
        MC_CHECK((r == t) == exp, << what << " (swapped): " << str(m.l) << " against " << str(o));
        MC_CHECK((t != r) == !exp, << what << " operator!=");
    };
    cmp(m.l, true, "equal contents");
    if (m.l.empty())
        return;
    std::vector<seg> sorted(m.l), o;
    std::sort(sorted.begin(), sorted.end());
    for (std::size_t i = 0; i < m.l.size(); ++i)
    {
        o = m.l;
        o.erase(o.begin() + i);
        cmp(o, false, "one segment fewer");
        o = m.l;
        o.push_back(m.l[i]);
        cmp(o, false, "one segment more");
        for (std::size_t j = 0; j < m.l.size(); ++j)
        {
            o = m.l;
            o[i] = m.l[j];
            std::vector<seg> so(o);
            std::sort(so.begin(), so.end());
            cmp(o, so == sorted, "one segment replaced by another stored one");
        }
        for (int d = 0; d < 3; ++d)
        {
            o = m.l;
            (d == 0 ? o[i].v : d == 1 ? o[i].e : o[i].s) += d == 2 ? -1 : 1;
            std::vector<seg> so(o);
            std::sort(so.begin(), so.end());
            cmp(o, so == sorted, "one segment modified");
        }
    }
}

template<typename K, typename V>
void step(int lo, int hi, int nmax, int nvals, bool ordered)
{
    tree<K, V> t;
    model m;
    std::vector<seg> all;
    for (int s = lo; s < hi; ++s)
        for (int e = s + 1; e <= hi; ++e)
            for (int v = 0; v < nvals; ++v)
                all.push_back({s, e, v});
    int n = mc::choose(nmax + 1);
    int first = 0;
    for (int i = 0; i < n; ++i)
    {
        int k = first + mc::choose(int(all.size()) - first);
        if (ordered)
            first = k; // multisets only
        insert(t, m, all[k]);
    }
    // is the tree built, and was one segment inserted since?
    int how = mc::choose(2);
    if (how == 1)
        build(t, m);
    MC_NOTE("segments " << str(m.l) << (how ? " built" : ""));
    mc::fp f;
    for (const seg& x : m.l)
        f.add(std::uint64_t(x.s * 10000 + x.e * 100 + x.v));
    mc::state(f.add(how).get());
    if (mc::fresh())
    {
        check(t, m, lo, hi, "tree");
        equality(t, m);
        for (int s = lo; s <= hi; ++s)
            for (int e = lo; e <= s; ++e)
                insert(t, m, {s, e, 0}); // refused, and the tree stays valid
        check(t, m, lo, hi, "tree after refused insertions");
        t.to_string();
    }
    switch (mc::choose(9))
    {
        case 0:
        {
            // erase by predicate, twice
            for (int rep = 0; rep < 2; ++rep)
            {
                int key = mc::choose(hi - lo + 2);
                int v = mc::choose(nvals + 1) - 1;
                MC_NOTE("erase_if key " << key + lo - 1 << " value " << v);
                erase_pred(t, m, key == 0 ? -10 : key + lo - 1, v);
                check(t, m, lo, hi, "after erase_if");
            }
            break;
        }
        case 1:
        {
            int reps = 0;
            do
            {
                int key = lo + mc::choose(hi - lo);
                int i = mc::choose(n + 1);
                if (i == n || !erase_it(t, m, key, i))
                    break;
                check(t, m, lo, hi, "after erase(iterator)");
            } while (++reps < 2);
            break;
        }
        case 2:
        {
            tree<K, V> u(t);
            model mu(m);
            mu.valid = m.valid && !m.l.empty();
            MC_CHECK(t == u || mu.valid != m.valid, << "copy differs from its source");
            check(u, mu, lo, hi, "copy");
            erase_pred(t, m, -10, 0);
            check(u, mu, lo, hi, "copy after change of source");
            erase_pred(u, mu, lo, -1);
            check(t, m, lo, hi, "source after change of copy");
            break;
        }
        case 3:
        {
            tree<K, V> u(std::move(t));
            model mu(m);
            m = model();
            check(u, mu, lo, hi, "move target");
            check(t, m, lo, hi, "moved-from tree");
            insert(t, m, {lo, hi, 1});
            build(t, m);
            check(t, m, lo, hi, "moved-from tree in use again");
            check(u, mu, lo, hi, "move target");
            break;
        }
        case 4:
        {
            t.clear();
            m = model();
            check(t, m, lo, hi, "cleared");
            insert(t, m, {lo, lo + 1, 1});
            build(t, m);
            break;
        }
        case 5:
        {
            // assignments over a tree with other contents
            int other = mc::choose(3);
            int kind = mc::choose(5);
            tree<K, V> u;
            model mu;
            if (other)
            {
                insert(u, mu, {lo, hi, 1});
                insert(u, mu, {lo + 1, lo + 2, 0});
            }
            if (other == 2)
                build(u, mu);
            if (kind == 0)
            {
                u = t;
                mu = m;
                check(u, mu, lo, hi, "assigned");
            }
            else if (kind == 1)
            {
                u = std::move(t);
                mu = m;
                m = model();
                check(u, mu, lo, hi, "move-assigned");
            }
            else if (kind == 2)
            {
                u.swap(t);
                std::swap(m, mu);
            }
            else if (kind == 3)
            {
                auto* p = &t;
                t = *p;
            }
            else
            {
                t = u;
                m = mu;
            }
            check(u, mu, lo, hi, "other tree");
            check(t, m, lo, hi, "tree");
            build(u, mu);
            erase_pred(u, mu, lo + 1, -1);
            check(u, mu, lo, hi, "other tree");
            break;
        }
        case 6:
            insert(t, m, all[mc::choose(int(all.size()))]);
            check(t, m, lo, hi, "after insert");
            break;
        default:
            // rebuilding once more, after nothing / everything was erased
            if (mc::flip())
                erase_pred(t, m, -10, -1);
            break;
    }
    mc::transition();
    check(t, m, lo, hi, "after the operation");
    build(t, m);
    check(t, m, lo, hi, "rebuilt");
    if (mc::fresh())
        equality(t, m);
}

} // namespace

MC_SCENARIO(
    seg_step, "all insertion sequences of up to n segments over keys [0,hi] with vals values x built or not x every operation",
    {"n", 3, 3, 2, 2}, {"hi", 3, 5, 3, 5}, {"vals", 2, 2, 2, 2}, {"split", 3, 3, 3, 3})
{
    step<int, int>(0, mc::param("hi"), mc::param("n"), mc::param("vals"), false);
}

MC_SCENARIO(
    seg_multi, "all multisets of up to n segments over keys [-2,hi-2], negative keys, heap values",
    {"n", 4, 5, 3, 3}, {"hi", 4, 4, 3, 4}, {"split", 3, 3, 3, 3})
{
    step<int, counted>(-2, mc::param("hi") - 2, mc::param("n"), 1, true);
}

MC_SCENARIO(
    seg_keys, "every set of up to n segments over a wide key range (deep trees): all stabbing queries and one erasure",
    {"n", 3, 4, 2, 3}, {"hi", 9, 9, 9, 9}, {"split", 3, 3, 3, 3})
{
    // every segment of a fixed ladder plus the enumerated ones
    using T = tree<double, int>;
    int hi = mc::param("hi");
    T t;
    model m;
    int ladder = mc::choose(3);
    for (int k = 0; ladder && k < hi; k += ladder)
        insert(t, m, {k, std::min(k + 1, hi), 7});
    int n = mc::choose(mc::param("n") + 1);
    int first = 0;
    for (int i = 0; i < n; ++i)
    {
        int s = first + mc::choose(hi - first);
        int e = s + 1 + mc::choose(hi - s);
        first = s;
        insert(t, m, {s, e, i});
    }
    build(t, m);
    MC_NOTE("segments " << str(m.l));
    mc::state(fpr(m));
    check(t, m, 0, hi, "tree");
    mc::transition();
    // non-integral keys
    for (int k = 0; k < hi; ++k)
    {
        std::vector<seg> a = collect<double, int>(t, k), b = collect<double, int>(t, k + 0.5);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        MC_CHECK(a == b, << "search inside (" << k << "," << k + 1 << ") differs from search(" << k << ")");
    }
    if (n)
    {
        erase_pred(t, m, -10, mc::choose(n));
        check(t, m, 0, hi, "after erase");
        erase_pred(t, m, -10, 7);
        check(t, m, 0, hi, "after erase of the ladder");
        build(t, m);
        check(t, m, 0, hi, "rebuilt");
        mc::transition();
    }
}

MC_SCENARIO(
    seg_history, "all operation histories of two trees up to a depth (insert, build, erase, erase_if, copy, move, swap, clear)",
    {"depth", 6, 7, 5, 6}, {"split", 2, 2, 2, 2})
{
    using T = tree<int, counted>;
    const int lo = 0, hi = 3;
    T t[2];
    model m[2];
    int depth = mc::param("depth");
    static const seg segs[] = {{0, 3, 1}, {0, 1, 0}, {1, 2, 1}, {1, 3, 0}};
    int cur = 0;
    for (int i = 0; i < depth; ++i)
    {
        int op = mc::choose(4 + 1 + 3 + 3 + 5);
        if (op < 4)
            insert(t[cur], m[cur], segs[op]);
        else if (op == 4)
            build(t[cur], m[cur]);
        else if (op < 8)
        {
            int key = op - 5;
            if (!m[cur].valid || !erase_it(t[cur], m[cur], key, 0))
                throw mc::prune();
        }
        else if (op < 11)
            erase_pred(t[cur], m[cur], op - 8, op == 10 ? 1 : -1);
        else if (op == 11)
            cur ^= 1; // switch the active tree
        else if (op == 12)
        {
            t[cur ^ 1] = t[cur];
            m[cur ^ 1] = m[cur];
            m[cur ^ 1].valid &= !m[cur].l.empty();
        }
        else if (op == 13)
        {
            t[cur ^ 1] = std::move(t[cur]);
            m[cur ^ 1] = m[cur];
            m[cur] = model();
        }
        else if (op == 14)
        {
            t[0].swap(t[1]);
            std::swap(m[0], m[1]);
        }
        else
        {
            t[cur].clear();
            m[cur] = model();
        }
        MC_NOTE("op " << op << " on tree " << cur);
        mc::transition();
        mc::state(fpr(m[0]) * 31 + fpr(m[1]));
        if (mc::fresh())
            for (int k = 0; k < 2; ++k)
                check(t[k], m[k], lo, hi, k ? "tree 1" : "tree 0");
    }
    if (mc::fresh())
    {
        if (m[0].valid == m[1].valid)
        {
            std::vector<seg> a(m[0].l), b(m[1].l);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            MC_CHECK((t[0] == t[1]) == (a == b), << "equality of " << str(a) << "and " << str(b));
        }
        for (int k = 0; k < 2; ++k)
        {
            build(t[k], m[k]);
            check(t[k], m[k], lo, hi, "rebuilt");
        }
    }
}
