// packed_trie_map: unit widths
#include "trie_common.hpp"

namespace {

/** size of the packed buffer for a set of keys, from its definition */
struct pack_dims
{
    std::size_t root_offset = 0, max_children = 0, values = 0, max_rel = 0;
};

template<typename It>
std::size_t pack_node(It b, It e, std::size_t d, std::size_t& size, pack_dims& r)
{
    std::vector<std::size_t> ch;
    if (b != e && b->first.size() == d)
    {
        ++b;
        ++r.values;
    }
    while (b != e)
    {
        It x = b;
        while (x != e && x->first[d] == b->first[d])
            ++x;
        ch.push_back(pack_node(b, x, d + 1, size, r));
        b = x;
    }
    std::size_t off = size;
    for (auto c : ch)
        r.max_rel = std::max(r.max_rel, off - c);
    r.max_children = std::max(r.max_children, ch.size());
    size += 2 + 2 * ch.size();
    return off;
}

template<typename K, typename P>
void width(const std::map<units<K>, int>& m, const units<K>& alphabet, const std::string& what)
{
    using F = fixture<K, int, width_traits<P>>;
    pack_dims d;
    std::size_t size = 1;
    d.root_offset = pack_node(m.begin(), m.end(), 0, size, d);
    constexpr std::size_t max = std::numeric_limits<P>::max();
    bool too_many_values = d.values > max - 1;
    bool wide_units = false;
    for (auto& [k, v] : m)
        for (auto c : k)
            wide_units |= static_cast<typename K::value_type>(static_cast<P>(c)) != c;
    bool too_many_children = d.max_children * 2 > max;
    bool far = d.root_offset > max || d.max_rel > max;
    auto t = F::build(m);
    for (int route = 0; route < 3; ++route)
    {
        std::unique_ptr<typename F::packed> p;
        try
        {
            if (route == 0)
                p.reset(new typename F::packed(t));
            else if (route == 1)
                p.reset(new typename F::packed(F::from_entries(m, false)));
            else
                p.reset(new typename F::packed(t.pack()));
        }
        catch (const mdds::size_error&)
        {
        }
        mc::transition();
        if (too_many_values || wide_units || too_many_children)
        {
            MC_CHECK(!p, << what << " route " << route << ": does not fit " << 8 * sizeof(P)
                         << "-bit units (values " << too_many_values << ", key units " << wide_units << ", children "
                         << too_many_children << ") but is accepted");
            mc::count("refused");
        }
        else if (far)
        {
            // the positions of nodes cannot be expressed: must not be accepted with wrong answers
            if (p)
                mc::fail("node offsets do not fit " + std::to_string(8 * sizeof(P)) + "-bit units but the packing is accepted: " + what);
            mc::count("far");
        }
        else
        {
            MC_CHECK(p, << what << " route " << route << ": fits " << 8 * sizeof(P) << "-bit units but is refused");
            std::vector<units<K>> q;
            for (auto& [k, v] : m)
                q.push_back(k);
            F::RP::check(*p, m, q.size() > 40 ? std::vector<units<K>>{q[0], q[20], q.back()} : q, alphabet, what.c_str());
            mc::count("fits");
        }
    }
}

} // namespace

MC_SCENARIO(
    trie_width, "numbers of keys 0..n in four shapes (numbers, one chain, fan of one-unit keys, pairs) x offset-unit widths "
                "8/16/32/64 x narrow and wide key units",
    {"n", 270, 300, 140, 270}, {"split", 2, 2, 2, 2})
{
    int shape = mc::choose(4);
    int n = mc::choose(mc::param("n") + 1);
    int w = mc::choose(4);
    using K = std::u16string;
    std::map<units<K>, int> m;
    std::size_t longest = 0;
    units<K> alphabet;
    for (int i = 0; i < n; ++i)
    {
        units<K> k;
        switch (shape)
        {
            case 0:
                for (char c : std::to_string(i))
                    k.push_back(c);
                break;
            case 1:
                if (n > 100 && n % 10)
                    throw mc::prune(); // long chains: every tenth
                k.assign(i, u'x');
                break;
            case 2:
                k.push_back(char16_t(i + 1));
                break;
            default:
                k.push_back(char16_t(i / 16 + 1));
                k.push_back(char16_t(i % 16));
        }
        m[k] = i;
        longest = std::max(longest, k.size());
        for (auto c : k)
            if (std::find(alphabet.begin(), alphabet.end(), c) == alphabet.end())
                alphabet.push_back(c);
    }
    std::string what = "shape " + std::to_string(shape) + ", " + std::to_string(n) + " keys";
    if (w == 0)
        width<K, std::uint8_t>(m, alphabet, what);
    else if (w == 1)
        width<K, std::uint16_t>(m, alphabet, what);
    else if (w == 2)
        width<K, std::uint32_t>(m, alphabet, what);
    else
        width<K, std::uint64_t>(m, alphabet, what);
}

