// trie_map / packed_trie_map: contents, iteration, packing
#include "trie_common.hpp"

MC_SCENARIO(
    trie_sets, "every subset of all keys over {0, 'a', 0x80} of length <= 2 (trie, packed by all routes) x every query, prefix, "
               "start position and direction",
    {"split", 6, 6, 6, 6}, {"len", 2, 2, 1, 2})
{
    fixture<std::string, int>::sets({'\0', 'a', char(0x80)}, mc::param("len"));
}

MC_SCENARIO(
    trie_deep, "every subset of all keys over {'a','b'} of length <= 3 (trie, packed by all routes) x every query, prefix, start "
               "position and direction; u16 keys",
    {"split", 6, 6, 6, 6}, {"len", 3, 3, 2, 2})
{
    fixture<std::u16string, int, width_traits<std::uint16_t>>::sets({u'a', u'b'}, mc::param("len"));
}

MC_SCENARIO(
    trie_chain, "every subset of all keys over one unit of length <= n plus two branches, vector and minimal key types",
    {"n", 7, 10, 5, 7}, {"split", 5, 5, 5, 5})
{
    auto go = [](auto fx) {
        using F = decltype(fx);
        using U = typename F::map::key_type::value_type;
        std::vector<std::vector<U>> keys;
        int n = mc::param("n");
        for (int i = 0; i <= n; ++i)
            keys.push_back(std::vector<U>(i, U(7)));
        auto b1 = keys[n / 2];
        b1.push_back(U(65535));
        auto b2 = keys[1];
        b2.push_back(U(0));
        b2.push_back(U(0));
        keys.push_back(b1);
        keys.push_back(b2);
        auto m = F::choose_set(keys);
        auto t = F::build(m);
        std::vector<U> alphabet{U(0), U(7), U(65535)};
        F::RT::check(t, m, keys, alphabet, "trie");
        F::all_packed(m, keys, alphabet);
        mc::transition();
    };
    if (mc::flip())
        go(fixture<std::vector<std::uint16_t>, int>());
    else
        go(fixture<plain_key, counted, width_traits<std::uint32_t>>());
}

