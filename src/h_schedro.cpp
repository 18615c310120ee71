// FLAGS: -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0
// WITH: sched.cpp
// containers that nobody modifies, read from several threads
#include "sched.hpp"

#include <mdds/flat_segment_tree.hpp>
#include <mdds/segment_tree.hpp>
#include <mdds/point_quad_tree.hpp>
#include <mdds/rtree.hpp>
#include <mdds/trie_map.hpp>
#include <mdds/sorted_string_map.hpp>
#include <mdds/multi_type_vector/standard_element_blocks.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/delayed_delete_vector.hpp>
#include <mdds/multi_type_matrix.hpp>

#include <algorithm>
#include <memory>
#include <sstream>
#include <string>

namespace {

using result = std::vector<long>;

void put(result& r, const std::string& s)
{
    r.push_back(long(s.size()));
    for (char c : s)
        r.push_back(c);
}

struct reading
{
    const char* name;
    std::function<void(result&)> fn;
};

/** an object built, and what can be asked of it */
struct subject
{
    std::vector<std::shared_ptr<void>> objects;
    std::vector<reading> readings;
    template<typename T, typename... A>
    T& make(A&&... a)
    {
        auto p = std::make_shared<T>(std::forward<A>(a)...);
        objects.push_back(p);
        return *p;
    }
    void add(const char* name, std::function<void(result&)> fn) { readings.push_back({name, std::move(fn)}); }
};

// ---- flat_segment_tree ----

template<typename V>
V val(int i)
{
    if constexpr (std::is_same_v<V, std::string>)
        return "the value of segment number " + std::to_string(i);
    else
        return V(i);
}

void put(result& r, int v) { r.push_back(v); }

template<typename V>
void fst(subject& s, int size)
{
    using T = mdds::flat_segment_tree<int, V>;
    T &w = s.make<T>(0, 20, val<V>(0)), &w2 = s.make<T>(0, 20, val<V>(0));
    for (int i = 0; i < size; ++i)
    {
        w.insert_front(3 * i + 1, 3 * i + 3 + i % 2, val<V>(i % 3 + 1));
        w2.insert_back(3 * i + 1, 3 * i + 3 + i % 2, val<V>(i % 3 + 1));
    }
    w.build_tree();
    w2.build_tree();
    const T &t = w, &u = w2;
    s.add("search", [&t](result& r) {
        for (int k : {-1, 0, 2, 7, 19, 20})
        {
            V v{};
            int a = 0, b = 0;
            auto p = t.search(k, v, &a, &b);
            r.push_back(p.second);
            if (p.second)
                put(r, v), r.push_back(a), r.push_back(b);
        }
    });
    s.add("search from the answer", [&t](result& r) {
        auto it = t.search(1);
        for (int k : {2, 6, 12})
        {
            it = t.search(it, k);
            if (it != t.end())
            {
                r.push_back(it->first);
                auto g = it.to_segment();
                put(r, g->value), r.push_back(g->start), r.push_back(g->end);
            }
        }
    });
    s.add("search_tree", [&t](result& r) {
        for (int k : {-1, 0, 2, 7, 19, 20})
        {
            V v{};
            int a = 0, b = 0;
            auto p = t.search_tree(k, v, &a, &b);
            r.push_back(p.second);
            if (p.second)
                put(r, v), r.push_back(a), r.push_back(b);
            auto it = t.search_tree(k);
            r.push_back(it != t.end());
        }
    });
    s.add("iterate", [&t](result& r) {
        for (auto it = t.begin(); it != t.end(); ++it)
            r.push_back(it->first), put(r, it->second);
    });
    s.add("iterate backwards", [&t](result& r) {
        for (auto it = t.rbegin(); it != t.rend(); ++it)
            r.push_back(it->first), put(r, it->second);
    });
    s.add("segments", [&t](result& r) {
        for (auto it = t.begin_segment(); it != t.end_segment(); ++it)
            r.push_back(it->start), r.push_back(it->end), put(r, it->value);
    });
    s.add("segment_range", [&t](result& r) {
        for (const auto& g : t.segment_range())
            r.push_back(g.start), r.push_back(g.end), put(r, g.value);
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.leaf_size()));
        r.push_back(t.min_key());
        r.push_back(t.max_key());
        r.push_back(t.valid_tree());
        put(r, t.default_value());
    });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

// ---- segment_tree ----

void segtree(subject& s, int size)
{
    using T = mdds::segment_tree<int, std::string>;
    T &w = s.make<T>(), &w2 = s.make<T>();
    for (int i = 0; i < size; ++i)
        for (T* p : {&w, &w2})
            p->insert(i, 2 * i + 3, val<std::string>(i));
    w.build_tree();
    w2.build_tree();
    const T &t = w, &u = w2;
    s.add("search", [&t](result& r) {
        for (int k : {-1, 0, 2, 4, 7, 9})
        {
            auto res = t.search(k);
            r.push_back(long(res.size()));
            r.push_back(res.empty());
            std::vector<std::string> v;
            for (auto it = res.begin(); it != res.end(); ++it)
                v.push_back(it->value + std::to_string(it->start) + "-" + std::to_string(it->end));
            std::sort(v.begin(), v.end());
            for (auto& x : v)
                put(r, x);
        }
    });
    s.add("search backwards", [&t](result& r) {
        auto res = t.search(2);
        for (auto it = res.end(); it != res.begin();)
        {
            --it;
            r.push_back(it->start);
        }
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        r.push_back(t.empty());
        r.push_back(long(t.leaf_size()));
        r.push_back(t.valid_tree());
    });
    s.add("boundary_keys", [&t](result& r) {
        for (int k : t.boundary_keys())
            r.push_back(k);
    });
    s.add("to_string", [&t](result& r) { put(r, t.to_string()); });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

// ---- point_quad_tree ----

void quad(subject& s, int size)
{
    using T = mdds::point_quad_tree<int, std::string>;
    T &w = s.make<T>(), &w2 = s.make<T>();
    for (int i = 0; i < size; ++i)
        for (T* p : {&w, &w2})
            p->insert(i * 7 % 10, i * 3 % 10, val<std::string>(i));
    const T &t = w, &u = w2;
    s.add("search_region", [&t](result& r) {
        auto res = t.search_region(1, 1, 8, 8);
        std::vector<std::string> v;
        for (auto it = res.begin(); it != res.end(); ++it)
            v.push_back(it->second + std::to_string(it->first.x) + "-" + std::to_string(it->first.y));
        std::sort(v.begin(), v.end());
        for (auto& x : v)
            put(r, x);
    });
    s.add("search_region into a container", [&t](result& r) {
        T::data_array_type v;
        t.search_region(0, 0, 9, 9, v);
        r.push_back(long(v.size()));
    });
    s.add("find", [&t](result& r) {
        for (int i = 0; i < 4; ++i)
            try
            {
                put(r, t.find(i * 7 % 10, i * 3 % 10));
            }
            catch (const std::exception&)
            {
                r.push_back(-1);
            }
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        r.push_back(t.empty());
    });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("node access", [&t](result& r) {
        auto walk = [&r](auto&& self, T::node_access n) -> void {
            if (!n)
                return;
            r.push_back(n.x()), r.push_back(n.y()), put(r, n.data());
            self(self, n.northeast());
            self(self, n.northwest());
            self(self, n.southeast());
            self(self, n.southwest());
        };
        walk(walk, t.get_node_access());
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

// ---- rtree ----

struct rtraits : mdds::detail::rtree::default_rtree_traits
{
    static constexpr std::size_t min_node_size = 2;
    static constexpr std::size_t max_node_size = 4;
    static constexpr std::size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = true;
    static constexpr std::size_t reinsertion_size = 1;
};

void rt(subject& s, int size)
{
    using T = mdds::rtree<int, std::string, rtraits>;
    T& w = s.make<T>();
    for (int i = 0; i < size; ++i)
        w.insert({{i * 7 % 10, i * 3 % 10}, {i * 7 % 10 + 2, i * 3 % 10 + 1}}, val<std::string>(i));
    const T& t = w;
    auto collect = [](result& r, T::const_search_results res) {
        std::vector<std::string> v;
        for (auto it = res.cbegin(); it != res.cend(); ++it)
            v.push_back(*it + it.extent().to_string() + std::to_string(it.depth()));
        std::sort(v.begin(), v.end());
        for (auto& x : v)
            put(r, x);
    };
    s.add("search a point", [&t, collect](result& r) { collect(r, t.search({3, 4}, T::search_type::overlap)); });
    s.add("search an area", [&t, collect](result& r) { collect(r, t.search({{0, 0}, {6, 6}}, T::search_type::overlap)); });
    s.add("search a match", [&t, collect](result& r) { collect(r, t.search({{7, 3}, {9, 4}}, T::search_type::match)); });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        r.push_back(t.empty());
        put(r, t.extent().to_string());
    });
    s.add("walk", [&t](result& r) {
        t.walk([&r](const T::node_properties& np) {
            r.push_back(long(np.type));
            put(r, np.extent.to_string());
        });
    });
    s.add("export", [&t](result& r) {
        put(r, t.export_tree(T::export_tree_type::extent_as_obj));
        put(r, t.export_tree(T::export_tree_type::extent_as_svg));
        t.export_tree(T::export_tree_type::formatted_node_properties);
    });
    s.add("integrity", [&t](result& r) {
        T::integrity_check_properties p;
        p.throw_on_first_error = true;
        t.check_integrity(p);
        r.push_back(1);
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(long(c.size()));
    });
}

// ---- tries ----

const char* keys[] = {"abc", "ab", "b", "abcd", "", "bcd", "xyz", "xyzzy"};

template<typename T>
void trie_readings(subject& s, const T& t, const T& u)
{
    s.add("find", [&t](result& r) {
        for (const char* k : {"", "a", "ab", "abcd", "bx", "xyzzy"})
        {
            auto it = t.find(k);
            r.push_back(it != t.end());
            if (it != t.end())
                put(r, it->second), put(r, std::string(it->first));
        }
    });
    s.add("prefix_search", [&t](result& r) {
        for (const char* k : {"", "a", "abc", "x", "q"})
        {
            auto res = t.prefix_search(k);
            for (auto it = res.begin(); it != res.end(); ++it)
                put(r, std::string(it->first)), put(r, it->second);
        }
    });
    s.add("iterate", [&t](result& r) {
        for (auto it = t.begin(); it != t.end(); ++it)
            put(r, std::string(it->first)), put(r, it->second);
    });
    s.add("iterate backwards", [&t](result& r) {
        if (!t.empty())
            for (auto it = t.end(); it != t.begin();)
            {
                --it;
                put(r, std::string(it->first));
            }
    });
    s.add("nodes", [&t](result& r) {
        auto n = t.root_node();
        for (char c : std::string("abcd"))
        {
            r.push_back(n.valid() && n.has_child());
            if (!n.valid())
                break;
            if (n.has_value())
                put(r, n.value());
            n = n.child(c);
        }
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        r.push_back(t.empty());
    });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

using trie_t = mdds::trie_map<std::string, std::string>;

void trie(subject& s, int size)
{
    trie_t &w = s.make<trie_t>(), &w2 = s.make<trie_t>();
    for (int i = 0; i < std::min(size, 8); ++i)
    {
        w.insert(keys[i], val<std::string>(i));
        w2.insert(keys[i], val<std::string>(i));
    }
    trie_readings<trie_t>(s, w, w2);
}

void packed(subject& s, int size)
{
    using T = mdds::packed_trie_map<std::string, std::string>;
    trie_t w;
    for (int i = 0; i < std::min(size, 8); ++i)
        w.insert(keys[i], val<std::string>(i));
    const T &t = s.make<T>(w), &u = s.make<T>(w);
    trie_readings<T>(s, t, u);
    s.add("save_state", [&t](result& r) {
        std::ostringstream os;
        t.save_state(os);
        put(r, os.str());
    });
}

// ---- sorted_string_map ----

const mdds::sorted_string_map<int>::entry_type entries[] = {{"aa", 1}, {"ab", 2}, {"b", 3}, {"ba", 4}, {"cdef", 5}};

void ssm(subject& s, int size)
{
    using T = mdds::sorted_string_map<int>;
    using L = mdds::sorted_string_map<int, mdds::ssmap::linear_key_finder>;
    const T& t = s.make<T>(entries, std::size_t(std::min(size, 5)), -1);
    const L& l = s.make<L>(entries, std::size_t(std::min(size, 5)), -1);
    s.add("find", [&t](result& r) {
        for (const char* k : {"", "aa", "ab", "b", "cdef", "x"})
            r.push_back(t.find(k));
    });
    s.add("find_key", [&l](result& r) {
        for (int v : {0, 1, 3, 5})
            put(r, std::string(l.find_key(v)));
    });
    s.add("find_key, hashed", [&t](result& r) {
        for (int v : {0, 1, 3, 5})
            put(r, std::string(t.find_key(v)));
    });
    s.add("sizes", [&t](result& r) { r.push_back(long(t.size())); });
}

// ---- multi_type_vector ----

template<bool Cow>
struct mtraits : mdds::mtv::standard_element_blocks_traits
{
    static constexpr bool enable_cow = Cow;
};

template<typename T>
void fill(T& w, int size)
{
    for (int i = 0; i < size; ++i)
        switch (i * 5 % 7)
        {
            case 0:
            case 5:
                w.push_back(double(i));
                break;
            case 1:
            case 6:
                w.push_back(val<std::string>(i));
                break;
            case 2:
                w.push_back_empty();
                break;
            default:
                w.push_back(i % 2 == 0);
                w.push_back(std::int32_t(i));
        }
}

template<typename T>
void read_block(result& r, const T& t, std::size_t i)
{
    switch (t.get_type(i))
    {
        case mdds::mtv::element_type_double:
            r.push_back(long(t.template get<double>(i)));
            break;
        case mdds::mtv::element_type_string:
            put(r, t.template get<std::string>(i));
            break;
        case mdds::mtv::element_type_boolean:
            r.push_back(t.template get<bool>(i));
            break;
        case mdds::mtv::element_type_int32:
            r.push_back(t.template get<std::int32_t>(i));
            break;
    }
}

template<typename T>
void mtv(subject& s, int size)
{
    T &w = s.make<T>(), &w2 = s.make<T>();
    fill(w, size);
    fill(w2, size);
    const T &t = w, &u = w2;
    s.add("get", [&t](result& r) {
        for (std::size_t i = 0; i < t.size(); ++i)
            r.push_back(t.is_empty(i)), read_block(r, t, i);
    });
    s.add("position", [&t](result& r) {
        for (std::size_t i = 0; i < t.size(); ++i)
        {
            auto p = t.position(i);
            r.push_back(long(p.first->position)), r.push_back(long(p.second)), r.push_back(p.first->type);
        }
    });
    s.add("position with a hint", [&t](result& r) {
        auto it = t.begin();
        for (std::size_t i = 0; i < t.size(); ++i)
        {
            auto p = t.position(it, i);
            it = p.first;
            r.push_back(long(p.second));
        }
    });
    s.add("iterate", [&t](result& r) {
        for (auto it = t.begin(); it != t.end(); ++it)
        {
            r.push_back(it->type), r.push_back(long(it->size)), r.push_back(long(it->position));
            if (it->type == mdds::mtv::element_type_string)
                for (auto p = mdds::mtv::string_element_block::begin(*it->data); p != mdds::mtv::string_element_block::end(*it->data); ++p)
                    put(r, *p);
        }
    });
    s.add("iterate backwards", [&t](result& r) {
        for (auto it = t.rbegin(); it != t.rend(); ++it)
            r.push_back(it->type), r.push_back(long(it->size));
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        r.push_back(long(t.block_size()));
        r.push_back(t.empty());
    });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("step positions", [&t](result& r) {
        if (!t.empty())
            for (auto p = t.position(0); p.first != t.end(); p = T::next_position(p))
                r.push_back(long(T::logical_position(p)));
    });
    if constexpr (!std::is_same_v<T, mdds::mtv::soa::multi_type_vector<mtraits<true>>>)
    {
        s.add("copy", [&t](result& r) {
            T c(t);
            r.push_back(c == t);
        });
        s.add("clone", [&t](result& r) {
            T c = t.clone();
            r.push_back(c == t);
        });
    }
}

template<typename T>
void coll(subject& s, int size)
{
    std::vector<T>& v = s.make<std::vector<T>>(3);
    fill(v[0], size);
    fill(v[1], size);
    v[2] = T(v[0].size(), std::string("the same text everywhere in it"));
    if (!size)
        return;
    using K = mdds::mtv::collection<T>;
    const K& k = s.make<K>(v.begin(), v.end());
    auto walk = [](result& r, const K& c) {
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            r.push_back(it->type), r.push_back(long(it->index)), r.push_back(long(it->position));
            if (it->type == mdds::mtv::element_type_string)
                put(r, it->template get<mdds::mtv::string_element_block>());
        }
    };
    s.add("iterate", [&k, walk](result& r) { walk(r, k); });
    s.add("sizes", [&k](result& r) { r.push_back(long(k.size())); });
    s.add("copy and narrow", [&k, walk](result& r) {
        K c(k);
        c.set_collection_range(1, 2);
        walk(r, c);
    });
    const T& t = v[0];
    s.add("get", [&t](result& r) {
        for (std::size_t i = 0; i < t.size(); ++i)
            read_block(r, t, i);
    });
}

void matrix(subject& s, int size)
{
    using T = mdds::multi_type_matrix<mdds::mtm::std_string_traits>;
    T &w = s.make<T>(std::size_t(size), 2), &w2 = s.make<T>(std::size_t(size), 2);
    for (T* p : {&w, &w2})
        for (int i = 0; i < size; ++i)
        {
            if (i % 3)
                p->set(std::size_t(i), 0, 1.5 * i);
            else
                p->set(std::size_t(i), 0, val<std::string>(i));
            if (i % 2)
                p->set(std::size_t(i), 1, i % 4 == 1);
            else if (i % 5)
                p->set(std::size_t(i), 1, i);
        }
    const T &t = w, &u = w2;
    s.add("get", [&t, size](result& r) {
        for (std::size_t i = 0; i < std::size_t(size); ++i)
            for (std::size_t c = 0; c < 2; ++c)
            {
                auto type = t.get_type(i, c);
                r.push_back(type);
                if (type == mdds::mtm::element_string)
                    put(r, t.get_string(i, c));
                else
                    r.push_back(long(t.get_numeric(i, c) * 2)), r.push_back(t.get_integer(i, c)), r.push_back(t.get_boolean(i, c));
            }
    });
    s.add("position", [&t, size](result& r) {
        for (std::size_t i = 0; i < std::size_t(size); ++i)
        {
            auto p = t.position(i, 1);
            auto q = t.position(p, size - 1 - i, 0);
            r.push_back(long(t.matrix_position(p).row)), r.push_back(long(t.matrix_position(q).row));
            r.push_back(t.get_type(q));
        }
        r.push_back(size == 0 || t.end_position().first == t.position(0, 0).first);
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size().row));
        r.push_back(long(t.size().column));
        r.push_back(t.empty());
        r.push_back(t.numeric());
    });
    s.add("walk", [&t](result& r) {
        t.walk([&r](const T::element_block_node_type& n) {
            r.push_back(n.type), r.push_back(long(n.size)), r.push_back(long(n.offset));
            if (n.type == mdds::mtm::element_string)
                for (auto it = n.begin<T::string_block_type>(); it != n.end<T::string_block_type>(); ++it)
                    put(r, *it);
        });
    });
    s.add("walk both", [&t, &u](result& r) {
        t.walk(
            [&r](const T::element_block_node_type& a, const T::element_block_node_type& b) {
                r.push_back(a.type), r.push_back(long(b.size)), r.push_back(long(a.offset));
            },
            u);
    });
    s.add("compare", [&t, &u](result& r) {
        r.push_back(t == u);
        r.push_back(t != u);
    });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

void ddv(subject& s, int size)
{
    using T = mdds::mtv::delayed_delete_vector<std::string>;
    T &w = s.make<T>(), &w2 = s.make<T>();
    for (int i = 0; i < size + 1; ++i)
    {
        w.push_back(val<std::string>(i));
        if (i)
            w2.push_back(val<std::string>(i));
    }
    w.erase(w.begin());
    const T &t = w, &u = w2;
    s.add("iterate", [&t](result& r) {
        for (auto it = t.begin(); it != t.end(); ++it)
            put(r, *it);
        for (auto it = t.rbegin(); it != t.rend(); ++it)
            put(r, *it);
    });
    s.add("at", [&t](result& r) {
        for (std::size_t i = 0; i < t.size(); ++i)
            put(r, t[i]), put(r, t.at(i)), put(r, t.data()[i]);
    });
    s.add("sizes", [&t](result& r) {
        r.push_back(long(t.size()));
        
    });
    s.add("compare", [&t, &u](result& r) { r.push_back(t == u); });
    s.add("copy", [&t](result& r) {
        T c(t);
        r.push_back(c == t);
    });
}

// ---- exploration ----

void (*const builders[])(subject&, int) = {
    fst<int>,
    fst<std::string>,
    segtree,
    quad,
    rt,
    trie,
    packed,
    ssm,
    mtv<mdds::mtv::soa::multi_type_vector<mtraits<false>>>,
    mtv<mdds::mtv::aos::multi_type_vector<mtraits<false>>>,
    mtv<mdds::mtv::soa::multi_type_vector<mtraits<true>>>,
    coll<mdds::mtv::soa::multi_type_vector<mtraits<false>>>,
    coll<mdds::mtv::aos::multi_type_vector<mtraits<false>>>,
    matrix,
    ddv,
};
const char* builder_names[] = {"flat_segment_tree<int,int>", "flat_segment_tree<int,string>", "segment_tree", "point_quad_tree", "rtree", "trie_map",
                               "packed_trie_map", "sorted_string_map", "soa multi_type_vector", "aos multi_type_vector",
                               "soa multi_type_vector with copy-on-write", "collection (soa)", "collection (aos)", "multi_type_matrix",
                               "delayed_delete_vector"};
constexpr int n_builders = sizeof(builders) / sizeof(builders[0]);

int g_builder, g_size, g_threads, g_each, g_preemptions;

void body()
{
    subject s;
    builders[g_builder](s, g_size);
    const int n = int(s.readings.size());
    if (!n)
        return;
    std::vector<int> what[3];
    std::vector<result> got[3];
    std::string text;
    for (int t = 0; t < g_threads; ++t)
    {
        text += ", thread " + std::to_string(t) + ":";
        for (int k = 0; k < g_each; ++k)
        {
            // the threads without their order: from no earlier one's first on
            int from = t && !k ? what[t - 1][0] : 0;
            what[t].push_back(from + mc::choose(n - from));
            text += std::string(" ") + s.readings[what[t].back()].name + ";";
        }
        got[t].resize(g_each);
    }
    MC_NOTE(builder_names[g_builder] << " of size " << g_size << text);
    mc::transition();
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < g_threads; ++t)
        fns.push_back([&s, &what, &got, t] {
            for (int k = 0; k < g_each; ++k)
                s.readings[what[t][k]].fn(got[t][k]);
        });
    sched::run(fns, g_preemptions);
    for (int t = 0; t < g_threads; ++t)
        for (int k = 0; k < g_each; ++k)
        {
            result alone;
            s.readings[what[t][k]].fn(alone);
            MC_CHECK(alone == got[t][k], << s.readings[what[t][k]].name << " of " << builder_names[g_builder] << " differs from the one alone");
        }
}

void isolated()
{
    sched::init();
    body();
}

void readers(int threads, int each, int preemptions)
{
    g_threads = threads;
    g_each = each;
    g_preemptions = preemptions;
    g_builder = mc::choose(n_builders);
    static const int sizes[] = {12, 0, 3, 1, 6};
    g_size = sizes[mc::choose(mc::param("sizes"))];
    mc::isolate(isolated);
}

} // namespace

MC_SCENARIO(
    readers2, "every container x every two of its reading operations in two threads; everything used for the first time",
    {"split", 3, 3, 3, 3}, {"sizes", 5, 5, 1, 1}, {"preemptions", 3, 6, 1, 1})
{
    readers(2, 1, mc::param("preemptions"));
}

MC_SCENARIO(
    readers3, "every container x every three of its reading operations in three threads", {"split", 3, 3, 3, 3}, {"sizes", 2, 5, 1, 1},
    {"preemptions", 2, 4, 1, 1})
{
    readers(3, 1, mc::param("preemptions"));
}

MC_SCENARIO(
    readers2x2, "every container x every two reading operations after each other in both of two threads", {"split", 3, 3, 3, 3},
    {"sizes", 1, 3, 1, 1}, {"preemptions", 2, 3, 1, 1})
{
    readers(2, 2, mc::param("preemptions"));
}
