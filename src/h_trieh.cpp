// trie_map histories
#include "trie_common.hpp"

MC_SCENARIO(
    trie_history, "all histories of insert, overwrite, erase and clear over all keys of length <= 2 over {'a', 0xff}",
    {"depth", 4, 5, 3, 4}, {"split", 2, 2, 2, 2})
{
    fixture<std::string, counted>::history({'a', char(0xff)}, 2, mc::param("depth"));
}

MC_SCENARIO(
    trie_history3, "all histories of insert, overwrite, erase and clear over all keys of length <= 4 over one unit",
    {"depth", 5, 6, 4, 5}, {"split", 2, 2, 2, 2})
{
    fixture<std::vector<int>, counted>::history({-5}, 4, mc::param("depth"));
}

MC_SCENARIO(
    trie_pair, "all histories of two tries: insert, erase, copy, move, assign, self-assign, swap, clear, pack",
    {"depth", 4, 5, 3, 4}, {"split", 2, 2, 2, 2})
{
    using F = fixture<std::string, counted>;
    using T = F::trie;
    const std::string alphabet_s = "ab";
    const units<std::string> alphabet{'a', 'b'};
    const std::vector<units<std::string>> keys{{}, {'a'}, {'a', 'b'}, {'b', 'a'}};
    T t[2];
    F::map m[2];
    int depth = mc::param("depth");
    for (int i = 0; i < depth; ++i)
    {
        int k = mc::choose(2);
        T& a = t[k];
        T& b = t[k ^ 1];
        int op = mc::choose(4 + 2 + 8);
        MC_NOTE("op " << op << " on trie " << k);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            case 3:
                a.insert(vw<std::string>(keys[op]), counted(i + 1));
                m[k].insert_or_assign(keys[op], counted(i + 1));
                break;
            case 4:
            case 5:
            {
                const auto& q = keys[op == 4 ? 1 : 2];
                bool r = a.erase(vw<std::string>(q));
                MC_CHECK(r == (m[k].erase(q) > 0), << "erase");
                break;
            }
            case 6:
                b = a;
                m[k ^ 1] = m[k];
                break;
            case 7:
                b = std::move(a);
                m[k ^ 1] = m[k];
                a = T();
                m[k].clear();
                break;
            case 8:
                a.swap(b);
                std::swap(m[0], m[1]);
                break;
            case 9:
                a.clear();
                m[k].clear();
                break;
            case 10:
            {
                const T& self = a;
                a = self;
                break;
            }
            case 11:
            {
                T c(a);
                T d(std::move(c));
                c.clear();
                F::RT::check(c, {}, {}, alphabet, "moved-from and cleared");
                c.insert("xy", counted(5));
                MC_CHECK(c.size() == 1, << "moved-from, in use again");
                a.clear();
                a = std::move(d);
                break;
            }
            case 12:
            {
                // packing a copy leaves the source; packing moves the values out
                T c(a);
                auto p = c.pack();
                F::RP::check(p, m[k], keys, alphabet, "packed");
                c.clear();
                F::RP::check(p, m[k], {}, alphabet, "packed, source cleared");
                break;
            }
            default:
            {
                mdds::packed_trie_map<std::string, counted> p(a), q(b);
                MC_CHECK((p == q) == (m[0] == m[1]), << "equality of packed tries");
                p.swap(q);
                F::RP::check(p, m[k ^ 1], {}, alphabet, "packed");
                F::RP::check(q, m[k], {}, alphabet, "packed");
            }
        }
        mc::transition();
        if (mc::fresh())
        {
            F::RT::check(t[0], m[0], keys, alphabet, "trie 0");
            F::RT::check(t[1], m[1], keys, alphabet, "trie 1");
            MC_CHECK((t[0] == t[1]) == (m[0] == m[1]) && (t[0] != t[1]) == (m[0] != m[1]), << "equality of tries");
            mc::fp f;
            for (auto& mm : m)
                for (auto& [key, v] : mm)
                    f.add(std::string_view(key.data(), key.size())).add(v.get());
            mc::state(f.get());
        }
    }
}

