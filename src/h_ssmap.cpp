// sorted_string_map: M01
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/sorted_string_map.hpp>

#include <map>

namespace {

/** values whose hashes all collide */
struct clash
{
    int v = -1;
    bool operator==(const clash&) const = default;
};

/** a value that can only be moved */
struct move_only
{
    std::unique_ptr<int> p;
    move_only() = default;
    explicit move_only(int v) : p(new int(v)) {}
    int get() const { return p ? *p : -1; }
    bool operator==(const move_only& o) const { return get() == o.get(); }
};

enum class en
{
    none,
    a
};

} // namespace

template<>
struct std::hash<clash>
{
    std::size_t operator()(const clash&) const { return 7; }
};
template<>
struct std::hash<move_only>
{
    std::size_t operator()(const move_only& m) const { return std::size_t(m.get()); }
};

namespace {

template<typename V>
V val(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return "value number " + std::to_string(i);
    else if constexpr (std::is_same_v<V, clash>)
        return clash{i};
    else
        return V(i);
}

std::string show(std::string_view s)
{
    std::ostringstream os;
    os << '"';
    for (unsigned char c : s)
        if (c >= ' ' && c < 127)
            os << c;
        else
            os << '<' << int(c) << '>';
    os << '"';
    return os.str();
}

std::vector<std::string> strings(const std::string& alphabet, int maxlen)
{
    std::vector<std::string> r{{}};
    for (std::size_t i = 0; i < r.size(); ++i)
        if (int(r[i].size()) < maxlen)
            for (char c : alphabet)
                r.push_back(r[i] + c);
    return r;
}

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

template<typename M, typename V>
void check(const M& m, const std::map<std::string, int>& ref, const std::vector<std::string>& queries, int nvalues, const char* who)
{
    const V null = val<V>(99);
    MC_CHECK(m.size() == ref.size(), << who << ": size");
    for (const auto& q : queries)
    {
        auto it = ref.find(q);
        const V exp = it == ref.end() ? val<V>(99) : val<V>(it->second);
        // a buffer of exactly that size, so that reading past it shows
        std::unique_ptr<char[]> buf(new char[q.size()]);
        std::copy(q.begin(), q.end(), buf.get());
        MC_CHECK(m.find(std::string_view(buf.get(), q.size())) == exp, << who << ": find(" << show(q) << ") in a table of " << ref.size());
        MC_CHECK(m.find(buf.get(), q.size()) == exp, << who << ": find(pointer, length) of " << show(q));
        std::string longer = q + "ab";
        MC_CHECK(m.find(longer.data(), q.size()) == exp, << who << ": find of the front of a longer buffer: " << show(q));
        MC_CHECK(m.find(q) == exp, << who << ": find(string) " << show(q));
        if (q.find('\0') == std::string::npos)
            MC_CHECK(m.find(q.c_str()) == exp, << who << ": find(literal) " << show(q));
    }
    for (int v = 0; v <= nvalues; ++v)
    {
        bool any = false;
        for (auto& p : ref)
            any |= p.second == v;
        std::string_view k = m.find_key(val<V>(v));
        if (!any)
        {
            MC_CHECK(k.empty(), << who << ": find_key of a missing value gives " << show(k));
            continue;
        }
        auto it = ref.find(std::string(k));
        MC_CHECK(it != ref.end() && it->second == v, << who << ": find_key gives " << show(k) << ", which is not a key of value " << v);
        MC_CHECK(m.find(k) == val<V>(v), << who << ": the key found for a value maps back");
    }
    MC_CHECK(m.find_key(null).empty(), << who << ": find_key of the null value");
}

template<typename V, template<typename> class F>
void table(const std::map<std::string, int>& ref, const std::vector<std::string>& queries, int nvalues, const char* who)
{
    using M = mdds::sorted_string_map<V, F>;
    std::unique_ptr<typename M::entry_type[]> es(new typename M::entry_type[ref.size()]);
    std::size_t i = 0;
    for (auto& [k, v] : ref)
    {
        es[i].key = k;
        es[i++].value = val<V>(v);
    }
    M m(std::span<const typename M::entry_type>(es.get(), ref.size()), val<V>(99));
    check<M, V>(m, ref, queries, nvalues, who);
    M m2(es.get(), ref.size(), val<V>(99));
    check<M, V>(m2, ref, queries, nvalues, who);
    if constexpr (std::is_copy_constructible_v<V>)
    {
        std::unique_ptr<M> tmp(new M(m2));
        M m3(*tmp);
        M m4(std::move(*tmp));
        tmp.reset();
        check<M, V>(m3, ref, queries, nvalues, "copy");
        check<M, V>(m4, ref, queries, nvalues, "moved");
    }
    mc::transition(2);
}

template<typename V>
void both(const std::map<std::string, int>& ref, const std::vector<std::string>& queries, int nvalues, const char* who)
{
    table<V, mdds::ssmap::linear_key_finder>(ref, queries, nvalues, who);
    table<V, mdds::ssmap::hash_key_finder>(ref, queries, nvalues, who);
}

} // namespace

MC_SCENARIO(
    ss_sets, "every table whose keys are a subset of all strings of length <= 2 over an alphabet ({a,b}: all 5 value types; "
             "{0,a,0xff}: int) x every query of length <= 3 by every overload x every value, both key finders",
    {"wide", 1, 1, 0, 1}, {"split", 4, 4, 4, 4})
{
    bool wide = mc::param("wide") && mc::flip();
    const std::string alphabet = wide ? std::string("\0a\xff", 3) : std::string("ab");
    auto keys = strings(alphabet, 2);
    auto queries = strings(alphabet, 3);
    std::map<std::string, int> ref;
    for (std::size_t i = 0; i < keys.size(); ++i)
        if (mc::flip())
            ref.emplace(keys[i], int(i));
    both<int>(ref, queries, int(keys.size()), "int");
    if (wide)
        return;
    both<std::string>(ref, queries, int(keys.size()), "string");
    both<clash>(ref, queries, int(keys.size()), "clashing hashes");
    both<move_only>(ref, queries, int(keys.size()), "move-only");
    both<en>(ref, queries, int(keys.size()), "enum");
    mc::state(mc::fp{}.add(ref.size()).get());
}

MC_SCENARIO(
    ss_values, "every table of up to n of the keys {\"\", a, ab, abc, b, ba} x every assignment of 3 values (shared values)",
    {"n", 6, 6, 4, 6}, {"split", 3, 3, 3, 3})
{
    const std::vector<std::string> keys{"", "a", "ab", "abc", "b", "ba"};
    std::vector<std::string> queries = keys;
    for (auto s : {"abcd", "aa", "c", "bab"})
        queries.push_back(s);
    std::map<std::string, int> ref;
    for (int i = 0; i < mc::param("n"); ++i)
        if (int c = mc::choose(4); c)
            ref.emplace(keys[i], c);
    both<int>(ref, queries, 4, "int");
    both<clash>(ref, queries, 4, "clashing hashes");
    both<std::string>(ref, queries, 4, "string");
}

MC_SCENARIO(
    ss_sizes, "every table size 0..n (numbers of fixed width, or one growing chain of prefixes), every stored key, its "
              "neighbours, prefixes and extensions",
    {"n", 130, 600, 40, 130}, {"split", 2, 2, 2, 2})
{
    int shape = mc::choose(2);
    int n = mc::choose(mc::param("n") + 1);
    std::map<std::string, int> ref;
    std::vector<std::string> queries;
    for (int i = 0; i < n; ++i)
    {
        std::string k(shape ? std::string(i, 'k') : std::to_string(100000 + i * 2));
        ref.emplace(k, i % 98);
        queries.push_back(k);
        if (!shape)
            queries.push_back(std::to_string(100000 + i * 2 + 1));
        queries.push_back(k + '\0');
        queries.push_back(k + "zz");
        if (!k.empty())
            queries.push_back(k.substr(0, k.size() - 1));
    }
    queries.push_back("0");
    queries.push_back("");
    queries.push_back("zzz");
    both<int>(ref, queries, 98, "int");
}

namespace {

constexpr mdds::sorted_string_map<int>::entry_type c_entries[] = {{"", 5}, {"a", 1}, {"ab", 2}, {"b", 3}, {"ba", 3}};
constexpr mdds::sorted_string_map<int> c_map(c_entries, -1);
constexpr int c_find[] = {
    c_map.find(""), c_map.find("a"), c_map.find("ab"), c_map.find("b"), c_map.find("ba"), c_map.find("abc"), c_map.find("c"),
    c_map.find(std::string_view("abx", 2))};
constexpr std::string_view c_keys[] = {c_map.find_key(1), c_map.find_key(2), c_map.find_key(5), c_map.find_key(9)};

} // namespace

MC_SCENARIO(ss_constexpr, "a table evaluated at compile time", {"x", 0, 0, 0, 0})
{
    const int exp[] = {5, 1, 2, 3, 3, -1, -1, 2};
    const std::string_view expk[] = {"a", "ab", "", ""};
    int i = mc::choose(8);
    MC_CHECK(c_find[i] == exp[i], << "compile-time lookup " << i);
    if (i < 4)
        MC_CHECK(c_keys[i] == expk[i], << "compile-time reverse lookup " << i);
    MC_CHECK(c_map.size() == 5, << "size");
    mc::transition();
}
