// flat_segment_tree: F01 (total map), F02 (tree search, hints), F03 (canonical form, equality, iteration)
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/flat_segment_tree.hpp>

namespace {

template<typename V>
V mkval(int v);
template<>
int mkval<int>(int v) { return v; }
template<>
bool mkval<bool>(int v) { return v != 0; }
template<>
counted mkval<counted>(int v) { return counted(v); }

// what a caller's variables hold before a failed search
constexpr int untouched = 77;

/** Plain reference: one value per key of [lo, hi). */
struct ref_map
{
    int lo, hi, init;
    std::vector<int> a;

    ref_map(int l, int h, int i) : lo(l), hi(h), init(i), a(static_cast<std::size_t>(h - l), i) {}

    int& at(int k) { return a[static_cast<std::size_t>(k - lo)]; }
    int at(int k) const { return a[static_cast<std::size_t>(k - lo)]; }
    bool in(int k) const { return k >= lo && k < hi; }

    bool insert(int s, int e, int v)
    {
        bool ch = false;
        for (int k = std::max(s, lo); k < std::min(e, hi); ++k)
        {
            ch |= at(k) != v;
            at(k) = v;
        }
        return ch;
    }
    void shift_left(int s, int e)
    {
        if (s >= e || s < lo || e > hi)
            return;
        int n = e - s;
        for (int k = s; k < hi; ++k)
            at(k) = k + n < hi ? at(k + n) : init;
    }
    void shift_right(int p, int n, bool skip)
    {
        if (n <= 0 || !in(p))
            return;
        // inserted keys continue the segment to their left, unless the segment
        // starting at p is to be kept in place
        int fill = skip ? at(p) : (p == lo ? init : at(p - 1));
        for (int k = hi - 1; k >= p; --k)
            at(k) = k - n >= p ? at(k - n) : fill;
    }
    int seg_start(int k) const
    {
        while (k > lo && at(k - 1) == at(k))
            --k;
        return k;
    }
    int seg_end(int k) const
    {
        int v = at(k);
        while (k < hi && at(k) == v)
            ++k;
        return k;
    }
    std::string str() const
    {
        std::ostringstream os;
        os << "[" << lo << "," << hi << "):";
        for (int v : a)
            os << v;
        return os.str();
    }
};

template<typename K, typename V>
struct driver
{
    using tree = mdds::flat_segment_tree<K, V>;
    using iter = typename tree::const_iterator;

    static K key(int k) { return static_cast<K>(k); }

    // Unsigned keys are kept away from zero so that "before the range" exists.
    static constexpr int base = std::is_signed_v<K> ? 0 : 2;

    static void check_hit(
        const tree& t, const ref_map& m, int k, const std::pair<iter, bool>& r, const V& v, K s, K e, const char* what)
    {
        if (m.in(k))
        {
            MC_CHECK(r.second, << what << "(" << k << ") not found; expected map " << m.str());
            MC_CHECK(v == mkval<V>(m.at(k)), << what << "(" << k << ") gave a wrong value; expected map " << m.str());
            MC_CHECK(s == key(m.seg_start(k)), << what << "(" << k << ") segment start " << s << " expected map " << m.str());
            MC_CHECK(e == key(m.seg_end(k)), << what << "(" << k << ") segment end " << e << " expected map " << m.str());
            iter it = r.first;
            MC_CHECK(!(it == t.end()), << what << "(" << k << ") iterator is end");
            MC_CHECK(it->first == key(m.seg_start(k)), << what << "(" << k << ") iterator key; expected map " << m.str());
            MC_CHECK(it->second == mkval<V>(m.at(k)), << what << "(" << k << ") iterator value");
        }
        else
        {
            MC_CHECK(!r.second, << what << "(" << k << ") found outside of the range " << m.str());
            MC_CHECK(r.first == t.end(), << what << "(" << k << ") failed but returned no end iterator");
        }
    }

    static void check_iter(const tree& t, const ref_map& m, int k, iter it, const char* what)
    {
        if (m.in(k))
        {
            MC_CHECK(!(it == t.end()), << what << "(" << k << ") not found, expected map " << m.str());
            MC_CHECK(it->first == key(m.seg_start(k)) && it->second == mkval<V>(m.at(k)),
                     << what << "(" << k << ") iterator designates another segment; expected map " << m.str());
            auto sit = it.to_segment();
            MC_CHECK(sit->start == key(m.seg_start(k)) && sit->end == key(m.seg_end(k)) && sit->value == mkval<V>(m.at(k)),
                     << what << "(" << k << ").to_segment() wrong; expected map " << m.str());
        }
        else
            MC_CHECK(it == t.end(), << what << "(" << k << ") found outside of the range " << m.str());
    }

    static void check_searches(const tree& t, const ref_map& m)
    {
        for (int k = m.lo - 2; k <= m.hi + 2; ++k)
        {
            V v = mkval<V>(1);
            K s = key(untouched), e = key(untouched);
            auto r = t.search(key(k), v, &s, &e);
            check_hit(t, m, k, r, v, s, e, "search");
            auto r2 = t.search(key(k), v);
            MC_CHECK(r2.second == m.in(k), << "search without bounds");
            check_iter(t, m, k, t.search(key(k)), "search(key)");
        }
        MC_CHECK(t.min_key() == key(m.lo) && t.max_key() == key(m.hi), << "range ends changed");
    }

    static void check_tree(const tree& t, const ref_map& m)
    {
        for (int k = m.lo - 2; k <= m.hi + 2; ++k)
        {
            V v = mkval<V>(1);
            K s = key(untouched), e = key(untouched);
            auto r = t.search_tree(key(k), v, &s, &e);
            if (t.valid_tree())
            {
                check_hit(t, m, k, r, v, s, e, "search_tree");
                check_iter(t, m, k, t.search_tree(key(k)), "search_tree(key)");
            }
            else
            {
                MC_CHECK(!r.second, << "search_tree succeeded although the tree is not valid");
                MC_CHECK(t.search_tree(key(k)) == t.end(), << "search_tree succeeded although the tree is not valid");
            }
        }
    }

    static void check_hinted(const tree& t, const ref_map& m, const tree& other)
    {
        std::vector<iter> hints;
        for (iter it = t.begin(); !(it == t.end()); ++it)
            hints.push_back(it);
        hints.push_back(t.end());
        hints.push_back(iter());
        hints.push_back(other.begin());
        hints.push_back(other.search(key(base + 1)));
        hints.push_back(other.end());
        for (std::size_t i = 0; i < hints.size(); ++i)
            for (int k = m.lo - 1; k <= m.hi + 1; ++k)
            {
                V v = mkval<V>(1);
                K s = key(untouched), e = key(untouched);
                auto r = t.search(hints[i], key(k), v, &s, &e);
                check_hit(t, m, k, r, v, s, e, "search with hint");
                check_iter(t, m, k, t.search(hints[i], key(k)), "search(key) with hint");
            }
    }

    static void check_shape(const tree& t, const ref_map& m)
    {
        // forward
        std::vector<std::pair<int, int>> segs; // key, value
        for (int k = m.lo; k < m.hi; k = m.seg_end(k))
            segs.emplace_back(k, m.at(k));

        MC_CHECK(t.leaf_size() == segs.size() + 1, << "leaf_size " << t.leaf_size() << " expected map " << m.str());
        std::size_t i = 0;
        iter it = t.begin();
        for (; !(it == t.end()); ++it, ++i)
        {
            MC_CHECK(i <= segs.size(), << "too many leaves; expected map " << m.str());
            if (i < segs.size())
            {
                MC_CHECK(it->first == key(segs[i].first), << "leaf " << i << " has key " << it->first << "; expected map " << m.str());
                MC_CHECK(it->second == mkval<V>(segs[i].second), << "leaf " << i << " value; expected map " << m.str());
                auto sit = it.to_segment();
                MC_CHECK(sit->start == key(segs[i].first), << "to_segment start");
            }
            else
                MC_CHECK(it->first == key(m.hi), << "last leaf key");
        }
        MC_CHECK(i == segs.size() + 1, << "too few leaves; expected map " << m.str());
        // and backward from the end
        for (; i > 0; --i)
        {
            --it;
            int want = i - 1 < segs.size() ? segs[i - 1].first : m.hi;
            MC_CHECK(it->first == key(want), << "stepping backward");
        }
        MC_CHECK(it == t.begin(), << "stepping back does not end at begin");

        MC_CHECK(t.end().to_segment() == t.end_segment(), << "end().to_segment() is not the end segment");
        MC_CHECK(iter().to_segment() == typename tree::const_segment_iterator(), << "to_segment() of a default iterator");

        i = segs.size() + 1;
        for (auto r = t.rbegin(); !(r == t.rend()); ++r)
        {
            MC_CHECK(i > 0, << "too many leaves in reverse");
            --i;
            int want = i < segs.size() ? segs[i].first : m.hi;
            MC_CHECK(r->first == key(want), << "reverse leaf key");
            if (i < segs.size())
                MC_CHECK(r->second == mkval<V>(segs[i].second), << "reverse leaf value");
        }
        MC_CHECK(i == 0, << "too few leaves in reverse");

        i = 0;
        auto sit = t.begin_segment();
        for (; !(sit == t.end_segment()); ++sit, ++i)
        {
            MC_CHECK(i < segs.size(), << "too many segments");
            int end = i + 1 < segs.size() ? segs[i + 1].first : m.hi;
            MC_CHECK(sit->start == key(segs[i].first) && sit->end == key(end) && sit->value == mkval<V>(segs[i].second),
                     << "segment " << i << "; expected map " << m.str());
        }
        MC_CHECK(i == segs.size(), << "too few segments");
        for (; i > 0; --i)
        {
            --sit;
            MC_CHECK(sit->start == key(segs[i - 1].first) && sit->value == mkval<V>(segs[i - 1].second), << "segment backward");
        }
        i = 0;
        for (const auto& sg : t.segment_range())
        {
            MC_CHECK(i < segs.size() && sg.start == key(segs[i].first) && sg.value == mkval<V>(segs[i].second), << "segment_range");
            ++i;
        }
        MC_CHECK(i == segs.size(), << "segment_range length");
    }

    /** canonical construction: what an independently built equal tree is */
    static tree build(const ref_map& m, int how)
    {
        tree t(key(m.lo), key(m.hi), mkval<V>(m.init));
        if (how == 0)
        {
            for (int k = m.lo; k < m.hi; k = m.seg_end(k))
                t.insert_back(key(k), key(m.seg_end(k)), mkval<V>(m.at(k)));
        }
        else if (how == 1)
        {
            for (int k = m.hi - 1; k >= m.lo; --k)
                t.insert_front(key(k), key(k + 1), mkval<V>(m.at(k)));
        }
        else
        {
            iter pos = t.begin();
            for (int k = m.lo; k < m.hi; ++k)
                pos = t.insert(pos, key(k), key(k + 1), mkval<V>(m.at(k))).first;
        }
        return t;
    }

    static void check_all(const tree& t, const ref_map& m, const tree& other)
    {
        check_searches(t, m);
        check_tree(t, m);
        check_hinted(t, m, other);
        check_shape(t, m);
        tree same = build(m, 0);
        MC_CHECK(t == same && same == t, << "not equal to a tree with the same map " << m.str());
        MC_CHECK(!(t != same), << "operator!= disagrees");
        // a tree that differs in one key is not equal
        for (int k = m.lo; k < m.hi; ++k)
        {
            ref_map d = m;
            d.at(k) = (d.at(k) + 1) % 2;
            tree diff = build(d, 0);
            MC_CHECK(!(t == diff) && !(diff == t), << "equal although key " << k << " differs; map " << m.str());
        }
        ref_map wider(m.lo, m.hi + 1, m.init);
        for (int k = m.lo; k < m.hi; ++k)
            wider.at(k) = m.at(k);
        wider.at(m.hi) = m.at(m.hi - 1);
        tree w = build(wider, 0);
        MC_CHECK(!(t == w) && !(w == t), << "equal although the ranges differ");
    }

    static void check_insert_result(
        const tree& t, const ref_map& m, int s, int e, bool changed, const std::pair<iter, bool>& r)
    {
        MC_CHECK(r.second == changed, << "insert reports modified=" << r.second << " but the map " << (changed ? "did" : "did not") << " change");
        int a = std::max(s, m.lo), b = std::min(e, m.hi);
        if (a < b)
        {
            iter it = r.first;
            MC_CHECK(!(it == t.end()), << "insert returned end for a segment inside the range");
            MC_CHECK(it->first == key(m.seg_start(a)), << "insert returned an iterator to key " << it->first
                                                      << " instead of the segment that holds " << a << "; map " << m.str());
        }
        else
            MC_CHECK(r.first == t.end(), << "insert returned a position for a segment outside of the range");
    }

    /** choose and apply one operation */
    static void step(tree& t, ref_map& m, int nval, const tree& other, tree& spare, ref_map& sm)
    {
        int op = mc::choose(9);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                int span = m.hi - m.lo;
                int s = m.lo - 2 + mc::choose(span + 4);
                int e = m.lo - 2 + mc::choose(span + 4);
                int v = mc::choose(nval);
                bool ch = m.insert(s, e, v);
                if (op == 0)
                {
                    MC_NOTE("insert_front(" << s << "," << e << "," << v << ")");
                    auto r = t.insert_front(key(s), key(e), mkval<V>(v));
                    check_insert_result(t, m, s, e, ch, r);
                }
                else if (op == 1)
                {
                    MC_NOTE("insert_back(" << s << "," << e << "," << v << ")");
                    auto r = t.insert_back(key(s), key(e), mkval<V>(v));
                    check_insert_result(t, m, s, e, ch, r);
                }
                else
                {
                    int n = static_cast<int>(t.leaf_size());
                    int h = mc::choose(n + 4);
                    iter pos = t.begin();
                    if (h < n)
                        for (int i = 0; i < h; ++i)
                            ++pos;
                    else if (h == n)
                        pos = t.end();
                    else if (h == n + 1)
                        pos = iter();
                    else if (h == n + 2)
                        pos = other.search(key(base + 1));
                    else
                        pos = other.end();
                    MC_NOTE("insert(hint#" << h << " of " << n << " leaves," << s << "," << e << "," << v << ")");
                    auto r = t.insert(pos, key(s), key(e), mkval<V>(v));
                    check_insert_result(t, m, s, e, ch, r);
                    mc::count("hinted_inserts");
                }
                if (s < m.lo || e > m.hi)
                    mc::count("insert_partly_outside");
                if (ch)
                    mc::count("insert_changes_map");
                break;
            }
            case 3:
            {
                int span = m.hi - m.lo;
                int s = m.lo - 1 + mc::choose(span + 3);
                int e = m.lo - 1 + mc::choose(span + 3);
                MC_NOTE("shift_left(" << s << "," << e << ")");
                t.shift_left(key(s), key(e));
                m.shift_left(s, e);
                mc::count("shift_left");
                break;
            }
            case 4:
            {
                int span = m.hi - m.lo;
                int p = m.lo - 1 + mc::choose(span + 2);
                int n = mc::choose(span + 3);
                bool skip = mc::flip();
                MC_NOTE("shift_right(" << p << "," << n << "," << skip << ")");
                t.shift_right(key(p), key(n), skip);
                m.shift_right(p, n, skip);
                mc::count("shift_right");
                break;
            }
            case 5:
                MC_NOTE("clear()");
                t.clear();
                m = ref_map(m.lo, m.hi, m.init);
                break;
            case 6:
                MC_NOTE("build_tree()");
                t.build_tree();
                MC_CHECK(t.valid_tree(), << "tree not valid right after build_tree()");
                break;
            case 7:
            {
                int how = mc::choose(5);
                MC_NOTE("copy/move variant " << how);
                if (how == 0)
                {
                    tree c(t);
                    MC_CHECK(c == t, << "copy differs");
                    c.insert_front(key(m.lo), key(m.hi), mkval<V>(0));
                    c.insert_front(key(m.lo), key(m.lo + 1), mkval<V>(1));
                    c.build_tree();
                }
                else if (how == 1)
                {
                    tree c(key(0 + base), key(1 + base), mkval<V>(0));
                    c = t;
                    MC_CHECK(c == t, << "copy-assigned tree differs");
                    t.clear();
                    t.insert_back(key(m.lo), key(m.lo + 1), mkval<V>(1));
                    t = c;
                }
                else if (how == 2)
                {
                    tree c(std::move(t));
                    check_searches(c, m);
                    check_tree(c, m);
                    t = std::move(c);
                }
                else if (how == 3)
                {
                    t = static_cast<const tree&>(t);
                }
                else
                {
                    tree c(t);
                    t = c;
                    c.shift_left(key(m.lo), key(m.hi));
                }
                break;
            }
            case 8:
            {
                int how = mc::choose(2);
                MC_NOTE("swap with the spare tree, variant " << how);
                if (how == 0)
                    t.swap(spare);
                else
                {
                    using std::swap;
                    swap(t, spare);
                }
                std::swap(m, sm);
                break;
            }
        }
        mc::transition();
    }

    static std::uint64_t fingerprint(const tree& t, const ref_map& m, const tree& spare, const ref_map& sm, int inst)
    {
        mc::fp f;
        f.add(inst).add(t.valid_tree()).add(spare.valid_tree());
        for (const ref_map* x : {&m, &sm})
        {
            f.add(x->lo).add(x->hi).add(x->init);
            for (int v : x->a)
                f.add(v);
        }
        return f.get();
    }

    /** every map x valid/invalid tree, one operation, everything checked; then possibly a second operation */
    static void step_from_every_map(int inst)
    {
        int n = mc::param("keys");
        int nval = mc::param("values");
        if constexpr (std::is_same_v<V, bool>)
            nval = 2;
        int init = mc::choose(std::is_same_v<V, bool> ? 2 : 1);
        ref_map m(base, base + n, init);
        if (mc::param("every_map"))
            for (int& v : m.a)
                v = mc::choose(nval);
        tree other(key(base), key(base + n), mkval<V>(0));
        other.insert_front(key(base + 1), key(base + 2), mkval<V>(1));
        ref_map sm(base, base + 3, 0);
        sm.at(base + 1) = 1;
        int how = mc::param("every_map") ? mc::choose(3) : 0;
        tree t = build(m, how);
        tree spare = build(sm, 0);
        if (mc::flip())
        {
            t.build_tree();
            MC_NOTE("start: map " << m.str() << " built by method " << how << " with the search tree built");
        }
        else
            MC_NOTE("start: map " << m.str() << " built by method " << how);
        if (mc::fresh())
            check_all(t, m, other);
        int ops = mc::param("ops");
        for (int i = 0; i < ops; ++i)
        {
            step(t, m, nval, other, spare, sm);
            if (mc::fresh())
            {
                mc::state(fingerprint(t, m, spare, sm, inst));
                check_all(t, m, other);
                if (i == ops - 1)
                {
                    t.build_tree();
                    check_tree(t, m);
                    t.insert_back(key(m.lo), key(m.hi), mkval<V>(1));
                    m.insert(m.lo, m.hi, 1);
                    check_tree(t, m);
                    check_shape(t, m);
                }
            }
        }
    }

    static void history(int inst)
    {
        int n = mc::param("keys");
        int nval = mc::param("values");
        if constexpr (std::is_same_v<V, bool>)
            nval = 2;
        int depth = mc::param("depth");
        ref_map m(base, base + n, 0);
        ref_map sm(base, base + 3, 1);
        tree other(key(base), key(base + n), mkval<V>(0));
        other.insert_front(key(base + 1), key(base + 2), mkval<V>(1));
        tree t(key(base), key(base + n), mkval<V>(0));
        tree spare(key(base), key(base + 3), mkval<V>(1));
        for (int i = 0; i < depth; ++i)
        {
            step(t, m, nval, other, spare, sm);
            if (mc::fresh())
            {
                check_all(t, m, other);
                check_all(spare, sm, other);
            }
            mc::visit(fingerprint(t, m, spare, sm, inst), depth - i - 1);
        }
    }
};

} // namespace

MC_SCENARIO(fst_step,
            "every map over the key range (three ways of building it, search tree built or not), then every operation "
            "with every parameter (keys from two before to two beyond the range, every hint), all searches checked",
            {"keys", 4, 5, 3, 4}, {"values", 3, 3, 3, 3}, {"ops", 1, 1, 1, 1}, {"every_map", 1, 1, 1, 1})
{
    int inst = mc::choose(3);
    switch (inst)
    {
        case 0:
            driver<long, int>::step_from_every_map(inst);
            break;
        case 1:
            driver<unsigned, counted>::step_from_every_map(inst);
            break;
        case 2:
            driver<short, bool>::step_from_every_map(inst);
            break;
    }
}

MC_SCENARIO(fst_history,
            "all histories of operations from the initial tree up to the given depth, states merged when the map, the "
            "validity of the search tree and the spare tree agree",
            {"keys", 3, 3, 2, 3}, {"values", 2, 3, 2, 2}, {"depth", 4, 8, 3, 5})
{
    int inst = mc::choose(2);
    if (inst == 0)
        driver<long, int>::history(inst);
    else
        driver<unsigned long, counted>::history(inst);
}

MC_SCENARIO(fst_raw_history,
            "all histories of operations from the initial tree up to the given depth without merging any states "
            "(hidden state such as stale nodes of a search tree is not abstracted from)",
            {"keys", 2, 3, 2, 3}, {"values", 2, 3, 2, 2}, {"ops", 2, 2, 2, 2}, {"every_map", 0, 0, 0, 0})
{
    driver<int, int>::step_from_every_map(0);
}
