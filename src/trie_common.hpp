// shared parts of the trie harnesses
#pragma once
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/trie_map.hpp>

#include <map>
#include <sstream>

namespace {

/** a key type that offers no more than what the trie needs */
class plain_key
{
    std::vector<std::uint16_t> m;

public:
    using value_type = std::uint16_t;
    plain_key() = default;
    plain_key(const value_type* p, std::size_t n) : m(p, p + n) {}
    const value_type* data() const { return m.data(); }
    void push_back(value_type c) { m.push_back(c); }
    void pop_back() { m.pop_back(); }
    std::size_t size() const { return m.size(); }
    auto begin() const { return m.begin(); }
    auto end() const { return m.end(); }
    bool operator==(const plain_key&) const = default;
};

template<typename K>
using units = std::vector<typename K::value_type>; // ordered by unit value

template<typename K>
K mk(const units<K>& u)
{
    K k;
    for (auto c : u)
        k.push_back(c);
    return k;
}

template<typename K>
units<K> unmk(const K& k)
{
    return units<K>(k.begin(), k.end());
}

template<typename U>
std::string show(const std::vector<U>& u)
{
    std::ostringstream os;
    os << '"';
    for (auto c : u)
    {
        auto v = static_cast<unsigned long long>(std::make_unsigned_t<U>(c));
        if (v >= 'a' && v <= 'z')
            os << char(v);
        else
            os << '<' << v << '>';
    }
    os << '"';
    return os.str();
}

template<typename K, typename V>
std::string show_map(const std::map<units<K>, V>& m)
{
    std::ostringstream os;
    os << "{";
    for (auto& [k, v] : m)
        os << show(k) << " ";
    os << "}";
    return os.str();
}

/** all strings over the alphabet up to a length */
template<typename K>
std::vector<units<K>> strings(const units<K>& alphabet, int maxlen)
{
    std::vector<units<K>> r{{}};
    for (std::size_t i = 0; i < r.size(); ++i)
        if (int(r[i].size()) < maxlen)
            for (auto c : alphabet)
            {
                auto s = r[i];
                s.push_back(c);
                r.push_back(s);
            }
    return r;
}

template<typename K>
using view = typename mdds::trie::detail::key_view_t<typename K::value_type>;

template<typename K>
view<K> vw(const units<K>& u)
{
    return view<K>(u.data(), u.size());
}

/** checks that apply to the plain and to the packed trie alike */
template<typename K, typename T, typename V>
struct reader
{
    using map = std::map<units<K>, V>;
    using item = std::pair<units<K>, V>;

    /** [first,last) must be exactly the range of the reference, in both directions */
    template<typename It>
    static void range(It b, It e, const std::vector<item>& exp, const std::string& what)
    {
        std::vector<It> pos;
        It it = b;
        for (auto& [k, v] : exp)
        {
            MC_CHECK(!(it == e), << what << " ends before " << show(k));
            auto p = *it;
            MC_CHECK(unmk(p.first) == k, << what << " yields key " << show(unmk(p.first)) << ", expected " << show(k));
            MC_CHECK(p.second == v, << what << " value of " << show(k));
            MC_CHECK(unmk(it->first) == k && it->second == v, << what << " operator->");
            pos.push_back(it);
            if (pos.size() % 2)
                ++it;
            else
            {
                It old = it;
                auto prev = it++;
                MC_CHECK(prev == old, << what << " post-increment");
            }
        }
        MC_CHECK(it == e, << what << " goes on after the last key");
        pos.push_back(it);
        // backwards from the end as handed out and from the end as reached, from every position
        for (std::size_t start = 0; start <= exp.size() + 1; ++start)
        {
            It bw = start > exp.size() ? e : pos[start];
            for (std::size_t i = std::min(start, exp.size()); i-- > 0;)
            {
                if (i % 2)
                    --bw;
                else
                {
                    It old = bw;
                    auto prev = bw--;
                    MC_CHECK(prev == old, << what << " post-decrement");
                }
                auto p = *bw;
                MC_CHECK(
                    unmk(p.first) == exp[i].first, << what << " backwards yields " << show(unmk(p.first)) << ", expected "
                                                   << show(exp[i].first));
                MC_CHECK(p.second == exp[i].second, << what << " backwards: value of " << show(exp[i].first));
                MC_CHECK(bw == pos[i], << what << " stepping back to " << show(exp[i].first) << " gives an unequal iterator");
                // and one step forth and back again
                It w = bw;
                ++w;
                MC_CHECK(w == pos[i + 1], << what << " back and forth at " << show(exp[i].first));
                --w;
                MC_CHECK(w == bw && unmk((*w).first) == exp[i].first, << what << " forth and back at " << show(exp[i].first));
            }
            if (start > exp.size())
                MC_CHECK(exp.empty() ? bw == b : true, << what);
        }
    }

    template<typename N>
    static std::size_t nodes(const N& n, units<K>& prefix, const map& m, const units<K>& alphabet)
    {
        MC_CHECK(n.valid(), << "node at " << show(prefix));
        auto it = m.find(prefix);
        MC_CHECK(n.has_value() == (it != m.end()), << "has_value() of node " << show(prefix));
        if (it != m.end())
            MC_CHECK(n.value() == it->second, << "value() of node " << show(prefix));
        std::size_t count = 1, children = 0;
        for (auto c : alphabet)
        {
            prefix.push_back(c);
            bool exp = false;
            if (auto lb = m.lower_bound(prefix); lb != m.end())
                exp = lb->first.size() >= prefix.size() && std::equal(prefix.begin(), prefix.end(), lb->first.begin());
            auto ch = n.child(c);
            MC_CHECK(ch.valid() == exp, << "child node " << show(prefix));
            if (exp)
            {
                ++children;
                count += nodes(ch, prefix, m, alphabet);
            }
            prefix.pop_back();
        }
        MC_CHECK(n.has_child() == (children > 0), << "has_child() of node " << show(prefix));
        return count;
    }

    static void
    check(T& t, const map& m, const std::vector<units<K>>& queries, const units<K>& alphabet, const char* who)
    {
        const T& ct = t;
        const std::string ctx = std::string(who) + " holding " + show_map<K>(m) + ": ";
        std::vector<item> all(m.begin(), m.end());
        MC_CHECK(ct.size() == m.size(), << ctx << "size() " << ct.size());
        MC_CHECK(ct.empty() == m.empty(), << ctx << "empty()");
        range(ct.begin(), ct.end(), all, ctx + "iteration");
        if constexpr (!std::is_same_v<decltype(t.begin()), decltype(ct.begin())>)
            range(t.begin(), t.end(), all, ctx + "mutable iteration");
        units<K> prefix;
        nodes(ct.root_node(), prefix, m, alphabet);
        for (auto& q : queries)
        {
            auto exp = m.find(q);
            auto f = [&](auto it, auto e, auto b, const char* what) {
                if (exp == m.end())
                {
                    MC_CHECK(
                        it == e, << ctx << what << " of absent key " << show(q) << " gives " << show(unmk((*it).first)));
                    return;
                }
                MC_CHECK(!(it == e), << ctx << what << " misses " << show(q));
                auto p = *it;
                MC_CHECK(unmk(p.first) == q && p.second == exp->second, << ctx << what << " of " << show(q));
                // the iteration goes on from there, in both directions
                auto fw = it;
                for (auto x = exp; x != m.end(); ++x, ++fw)
                    MC_CHECK(unmk((*fw).first) == x->first, << ctx << what << " of " << show(q) << ", then forward");
                MC_CHECK(fw == e, << ctx << what << " of " << show(q) << ", then forward to the end");
                auto bw = it;
                for (auto x = exp; x != m.begin();)
                {
                    --x;
                    --bw;
                    auto bp = *bw;
                    MC_CHECK(
                        unmk(bp.first) == x->first && bp.second == x->second,
                        << ctx << what << " of " << show(q) << ", then backward yields " << show(unmk(bp.first)));
                }
                MC_CHECK(bw == b, << ctx << what << " of " << show(q) << ", then backward to the begin");
            };
            f(ct.find(vw<K>(q)), ct.end(), ct.begin(), "find");
            if constexpr (!std::is_same_v<decltype(t.begin()), decltype(ct.begin())>)
                f(t.find(vw<K>(q)), t.end(), t.begin(), "mutable find");

            std::vector<item> sub;
            for (auto& p : all)
                if (p.first.size() >= q.size() && std::equal(q.begin(), q.end(), p.first.begin()))
                    sub.push_back(p);
            auto r = ct.prefix_search(vw<K>(q));
            range(r.begin(), r.end(), sub, ctx + "prefix search of " + show(q));
            auto r2 = r; // copies of the results are as good
            range(r2.begin(), r2.end(), sub, ctx + "copied prefix search of " + show(q));
            auto r3 = std::move(r2);
            range(r3.begin(), r3.end(), sub, ctx + "moved prefix search of " + show(q));
            auto r4 = ct.prefix_search(vw<K>(units<K>{}));
            r4 = r3;
            range(r4.begin(), r4.end(), sub, ctx + "assigned prefix search of " + show(q));
        }
    }
};

template<typename P>
struct width_traits
{
    using pack_value_type = P;
};

template<typename K, typename V, typename Tr = mdds::trie::default_traits>
struct fixture
{
    using trie = mdds::trie_map<K, V, Tr>;
    using packed = mdds::packed_trie_map<K, V, Tr>;
    using map = std::map<units<K>, V>;
    using RT = reader<K, trie, V>;
    using RP = reader<K, packed, V>;

    static V val(int v)
    {
        if constexpr (std::is_same_v<V, std::string>)
            return std::string(v % 7, char('a' + v % 26)) + std::to_string(v);
        else if constexpr (std::is_same_v<V, std::vector<std::int16_t>>)
        {
            V r;
            for (int i = 0; i < v % 5; ++i)
                r.push_back(std::int16_t(v * 3 + i));
            return r;
        }
        else
            return V(v);
    }

    static trie build(const map& m)
    {
        trie t;
        for (auto& [k, v] : m)
            t.insert(vw<K>(k), v);
        return t;
    }

    /** packed from sorted entries, in unit order or in unsigned order (as std::string sorts) */
    static packed from_entries(const map& m, bool as_unsigned)
    {
        using U = std::make_unsigned_t<typename K::value_type>;
        std::vector<std::pair<std::vector<U>, const std::pair<const units<K>, V>*>> o;
        for (auto& p : m)
            o.emplace_back(std::vector<U>(p.first.begin(), p.first.end()), &p);
        if (as_unsigned)
            std::sort(o.begin(), o.end());
        std::vector<typename packed::entry> es;
        for (auto& p : o)
            es.emplace_back(p.second->first.data(), p.second->first.size(), p.second->second);
        return packed(es);
    }

    /** every way to get a packed trie for the same contents */
    static void all_packed(const map& m, const std::vector<units<K>>& queries, const units<K>& alphabet)
    {
        trie t = build(m);
        packed a(t);
        RP::check(a, m, queries, alphabet, "packed from a trie");
        RT::check(t, m, {}, alphabet, "trie after packing a copy");
        packed b = from_entries(m, false);
        RP::check(b, m, queries, alphabet, "packed from sorted entries");
        packed c = from_entries(m, true);
        RP::check(c, m, queries, alphabet, "packed from entries in unsigned order");
        packed d = t.pack();
        RP::check(d, m, queries, alphabet, "packed with moved values");
        MC_CHECK(a == b && b == c && c == d && d == a, << "packed tries of equal contents differ " << show_map<K>(m));
        MC_CHECK(!(a != b), << "operator!=");

        packed e(a);
        packed f(std::move(a));
        RP::check(e, m, queries, alphabet, "copy of a packed trie");
        RP::check(f, m, {}, alphabet, "moved packed trie");
        RP::check(a, {}, queries, alphabet, "moved-from packed trie");
        packed g(a);
        RP::check(g, {}, {}, alphabet, "copy of a moved-from packed trie");
        packed h;
        RP::check(h, {}, queries, alphabet, "default packed trie");
        packed i(h);
        RP::check(i, {}, queries, alphabet, "copy of a default packed trie");
        MC_CHECK(h == i && h == a && (h == f) == m.empty(), << "equality with an empty packed trie");
        h = e;
        RP::check(h, m, {}, alphabet, "assigned packed trie");
        h.swap(i);
        RP::check(h, {}, {}, alphabet, "swapped packed trie");
        RP::check(i, m, {}, alphabet, "swapped packed trie");
        const packed& ci = i;
        i = ci;
        RP::check(i, m, {}, alphabet, "self-assigned packed trie");
        i = std::move(h);
        RP::check(i, {}, {}, alphabet, "packed trie assigned from an empty one");

        // equality tells minimally different contents
        for (auto& [k, v] : m)
        {
            map m2 = m;
            m2[k] = val(77);
            packed x(build(m2));
            MC_CHECK(!(x == f) && !(f == x), << "a changed value of " << show(k) << " is not seen");
            m2.erase(k);
            packed y(build(m2));
            MC_CHECK(!(y == f) && !(f == y), << "missing key " << show(k) << " is not seen");
            for (auto c : alphabet)
            {
                map m3 = m2;
                auto k2 = k;
                k2.push_back(c);
                if (m3.count(k2))
                    continue;
                m3[k2] = v;
                packed z(build(m3));
                MC_CHECK(!(z == f) && !(f == z), << "another key " << show(k2) << " is not seen");
                trie tz = build(m3), tf = build(m);
                MC_CHECK(!(tz == tf) && tz != tf, << "trie: another key " << show(k2) << " is not seen");
            }
            trie t2 = build(m2), t0 = build(m);
            MC_CHECK(!(t2 == t0) && t2 != t0, << "trie: missing key " << show(k) << " is not seen");
        }
        MC_CHECK(build(m) == build(m), << "trie equality");
    }

    /** one set of keys: choice per key */
    static map choose_set(const std::vector<units<K>>& keys)
    {
        map m;
        for (std::size_t i = 0; i < keys.size(); ++i)
            if (mc::flip())
                m.emplace(keys[i], val(int(i) + 1));
        return m;
    }

    static void sets(const units<K>& alphabet, int len)
    {
        auto keys = strings<K>(alphabet, len);
        auto queries = strings<K>(alphabet, len + 1);
        map m = choose_set(keys);
        trie t = build(m);
        RT::check(t, m, queries, alphabet, "trie");
        all_packed(m, keys, alphabet);
        mc::transition();
        mc::fp f;
        for (auto& k : keys)
            f.add(m.count(k));
        mc::state(f.get());
    }

    /** all histories of insert, overwrite, erase, clear */
    static void history(const units<K>& alphabet, int len, int depth)
    {
        auto keys = strings<K>(alphabet, len);
        auto queries = strings<K>(alphabet, len + 1);
        trie t;
        map m;
        for (int i = 0; i < depth; ++i)
        {
            int op = mc::choose(2 * int(keys.size()) + 1);
            if (op < int(keys.size()))
            {
                const auto& k = keys[op];
                MC_NOTE("insert " << show(k));
                t.insert(vw<K>(k), val(i + 1));
                m.insert_or_assign(k, val(i + 1));
            }
            else if (op < 2 * int(keys.size()))
            {
                const auto& k = keys[op - keys.size()];
                MC_NOTE("erase " << show(k));
                bool r = t.erase(vw<K>(k));
                MC_CHECK(r == (m.erase(k) > 0), << "erase(" << show(k) << ") returned " << r << ", holding " << show_map<K>(m));
            }
            else
            {
                MC_NOTE("clear");
                t.clear();
                m.clear();
            }
            mc::transition();
            if (mc::fresh())
            {
                RT::check(t, m, queries, alphabet, "trie");
                mc::fp f;
                for (auto& [k, v] : m)
                {
                    f.add(k.size());
                    for (auto c : k)
                        f.add(std::uint64_t(c));
                    f.add(std::uint64_t(v.get()));
                }
                mc::state(f.get());
                if (i + 1 == depth)
                {
                    packed p(t);
                    RP::check(p, m, keys, alphabet, "packed");
                    // values are writable through mutable iterators
                    int n = 100;
                    for (auto it = t.begin(); it != t.end(); ++it)
                    {
                        it->second = val(++n);
                        m.insert_or_assign(unmk(it->first), val(n));
                    }
                    RT::check(t, m, {}, alphabet, "trie after writing through iterators");
                    RP::check(p, p.size() ? rp_map(p) : map(), {}, alphabet, "packed, unaffected");
                }
            }
        }
    }

    static map rp_map(const packed& p)
    {
        map m;
        for (auto it = p.begin(); it != p.end(); ++it)
            m.insert_or_assign(unmk(it->first), it->second);
        return m;
    }
};

} // namespace

