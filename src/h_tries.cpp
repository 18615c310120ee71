// packed_trie_map: saved state
#include "trie_common.hpp"

namespace {

template<typename V, typename P>
void state_case(int mode_count)
{
    using K = std::string;
    using F = fixture<K, V, width_traits<P>>;
    using packed = typename F::packed;
    const units<K> alphabet{'a', char(0x81)};
    auto keys = strings<K>(alphabet, 2);
    typename F::map m = F::choose_set(keys);
    packed src(F::build(m));
    std::ostringstream os;
    src.save_state(os);
    const std::string good = os.str();

    typename F::map other;
    other[{'z'}] = F::val(9);
    packed recv(F::build(other));
    auto unchanged = [&](const char* what, std::size_t pos) {
        MC_CHECK(recv.size() == 1 && recv == packed(F::build(other)), << what << " at " << pos << ": the receiving trie changed");
        F::RP::check(recv, other, {}, {'a', 'z', char(0x81)}, what);
    };
    auto load = [&](packed& p, const std::string& s) {
        std::istringstream is(s);
        try
        {
            p.load_state(is);
            return true;
        }
        catch (const std::exception&)
        {
            return false;
        }
    };
    int mode = mc::choose(mode_count);
    mc::transition();
    if (mode == 0)
    {
        MC_CHECK(load(recv, good), << "a saved state is rejected");
        F::RP::check(recv, m, keys, alphabet, "loaded trie");
        MC_CHECK(recv == src, << "loaded trie differs");
        packed dflt;
        MC_CHECK(load(dflt, good) && dflt == src, << "loading into a default trie");
        std::ostringstream os2;
        recv.save_state(os2);
        MC_CHECK(os2.str() == good, << "saving again gives another state");
        // several states in one stream
        std::istringstream is(good + good + "x");
        packed a, b;
        a.load_state(is);
        b.load_state(is);
        MC_CHECK(a == src && b == src && is.get() == 'x', << "two states in one stream");
        return;
    }
    if (mode == 1)
    {
        for (std::size_t n = 0; n < good.size(); ++n)
        {
            bool ok = load(recv, good.substr(0, n));
            MC_CHECK(!ok, << "a state truncated to " << n << " of " << good.size() << " bytes is accepted");
            unchanged("truncated state", n);
            mc::count("truncations");
        }
        return;
    }
    // damaged bytes: layout from the format
    constexpr bool var = mdds::trie::value_serializer<V>::variable_size;
    std::size_t values = m.size(), p = 2 + 4;
    std::vector<std::size_t> must; // positions where any damage must be noticed
    if (!var)
    {
        for (int i = 0; i < 4; ++i)
            must.push_back(p + i);
        p += 4 + values * sizeof(V);
    }
    else
        for (std::size_t i = 0; i < values; ++i)
        {
            std::uint32_t sz;
            std::memcpy(&sz, good.data() + p, 4);
            p += 4 + sz;
        }
    must.push_back(p);     // check byte
    must.push_back(p + 1); // size of units
    must.push_back(good.size() - 1);
    std::size_t blob = p + 2 + 8;
    for (std::size_t pos = 0; pos < good.size(); ++pos)
    {
        for (int x : {0x01, 0x80, 0x3c})
        {
            std::string bad = good;
            bad[pos] = char(bad[pos] ^ x);
            bool needed = std::find(must.begin(), must.end(), pos) != must.end() || (pos == 0 && x == 0x01);
            bool ok = load(recv, bad);
            mc::count("damages");
            if (needed)
                MC_CHECK(!ok, << "damage of byte " << pos << " is accepted");
            if (!ok)
                unchanged("damaged state", pos);
            else
            {
                if (pos < blob)
                    mc::count("accepted_damage");
                recv = packed(F::build(other));
            }
        }
    }
}

/** values of sizes around the limits of the fields a state might use for them */
template<typename V, typename P>
void long_case(int keys_n)
{
    using K = std::string;
    using F = fixture<K, V, width_traits<P>>;
    using packed = typename F::packed;
    static const std::size_t lens[] = {0, 1, 127, 128, 255, 256, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537, 70001};
    static const K keys[] = {"", "a", "ab"};
    std::map<K, V> m;
    for (int i = 0; i < keys_n; ++i)
    {
        V v(lens[mc::choose(15)], typename V::value_type(1));
        for (std::size_t j = 0; j < v.size(); ++j)
            v[j] = typename V::value_type(j * 31 + i + (j >> 8));
        m[keys[i]] = v;
    }
    int how = mc::choose(3);
    mc::transition();
    mdds::trie_map<K, V, width_traits<P>> t;
    for (auto& e : m)
        t.insert(e.first, e.second);
    packed src = t.pack();
    std::ostringstream os;
    src.save_state(os);
    const std::string good = os.str();
    packed p;
    if (how == 0)
    {
        std::istringstream is(good + good + "x");
        packed q;
        p.load_state(is);
        q.load_state(is);
        MC_CHECK(is.get() == 'x', << "two states in one stream: the position after them is wrong");
        MC_CHECK(p == src && q == src, << "a trie of long values differs after loading");
        MC_CHECK(p.size() == m.size(), << "size " << p.size());
        for (auto& e : m)
        {
            auto it = p.find(e.first);
            MC_CHECK(it != p.end() && it->second == e.second, << "value of " << e.first.size() << "-unit key, length " << e.second.size());
        }
        std::ostringstream os2;
        p.save_state(os2);
        MC_CHECK(os2.str() == good, << "saving again gives another state");
        return;
    }
    p = src;
    auto rejected = [&](const std::string& bad, std::size_t at) {
        std::istringstream is(bad);
        bool threw = false;
        try
        {
            p.load_state(is);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, << "a state truncated to " << at << " of " << good.size() << " bytes is accepted");
        MC_CHECK(p == src, << "a failed load changed the receiving trie");
    };
    // truncations around the borders of every part
    std::size_t pos = 2 + 4;
    std::vector<std::size_t> at{pos};
    for (auto& e : m)
    {
        pos += 4;
        at.push_back(pos);
        pos += e.second.size() * sizeof(typename V::value_type);
        at.push_back(pos);
    }
    at.push_back(pos + 2);
    at.push_back(pos + 10);
    at.push_back(good.size());
    for (std::size_t a : at)
        for (std::size_t d : {0, 1, 2})
            if (how == 1 && a + d < good.size())
                rejected(good.substr(0, a + d), a + d);
            else if (how == 2 && a > d && a - d < good.size())
                rejected(good.substr(0, a - d), a - d);
}

} // namespace

MC_SCENARIO(
    trie_long, "every assignment of value lengths around powers of two (0 .. 70001 units) to up to three keys, for string and vector "
               "values: round trip, two states in one stream, truncations around the borders of every part",
    {"split", 2, 2, 2, 2}, {"keys", 2, 3, 1, 2})
{
    int n = mc::param("keys");
    switch (mc::choose(3))
    {
        case 0:
            long_case<std::string, std::uint64_t>(n);
            break;
        case 1:
            long_case<std::vector<std::int16_t>, std::uint16_t>(n);
            break;
        default:
            long_case<std::vector<double>, std::uint32_t>(n);
    }
}

MC_SCENARIO(
    trie_state, "every key set of length <= 2 over {'a', 0x81} x value type (int, double, string, vector of int16) x unit width "
                "(16, 64) : round trip, every truncation, every byte damaged in three ways",
    {"split", 3, 3, 3, 3}, {"modes", 3, 3, 3, 3})
{
    int modes = mc::param("modes");
    switch (mc::choose(5))
    {
        case 0:
            state_case<int, std::uint64_t>(modes);
            break;
        case 1:
            state_case<double, std::uint16_t>(modes);
            break;
        case 2:
            state_case<std::string, std::uint64_t>(modes);
            break;
        case 3:
            state_case<std::vector<std::int16_t>, std::uint16_t>(modes);
            break;
        default:
            state_case<std::uint8_t, std::uint32_t>(modes);
    }
}
