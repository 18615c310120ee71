// All single-container operations of a multi-type vector, chosen exhaustively.
#pragma once

#include "mtv_common.hpp"

namespace mtvh {

enum op_t
{
    op_set,
    op_set_range,
    op_insert_range,
    op_insert_empty,
    op_set_empty,
    op_erase,
    op_resize,
    op_push_back,
    op_emplace_back,
    op_release_value,
    op_release_into,
    op_release_range,
    op_release_all,
    op_clear,
    op_shrink,
    op_count
};

inline const char* op_name[] = {"set",          "set range", "insert range", "insert_empty", "set_empty",
                                "erase",        "resize",    "push_back",    "emplace_back", "release",
                                "release into", "release_range", "release all", "clear",     "shrink_to_fit"};

/** bounds of the parameters of an operation */
struct op_bounds
{
    int types = 4;     // number of element types including empty
    int max_len = 3;   // of inserted ranges
    int extra = 1;     // positions explored beyond the size
    bool hints = true; // explore every hint
    std::size_t max_size = 100;
};

template<typename Md>
struct ops
{
    using C = typename Md::C;
    using iterator = typename Md::iterator;
    using I = typename Md::I;
    using S = typename Md::S;
    using M = typename Md::M;

    C& c;
    cells& r;
    int& id;
    std::size_t& outside; // managed objects that belong to the caller
    op_bounds b;
    std::string what;
    bool threw = false;
    int shared = 0; // copy-on-write: 0 sole owner, 1 may share its blocks, 2 shares them with another container

    /** the hint to pass: none, any block, or the end */
    bool choose_hint(iterator& h)
    {
        if constexpr (Md::cow)
            return false;
        else
        {
            if (!b.hints)
                return false;
            int n = int(runs(r).size());
            int k = mc::choose(n + 2);
            if (!k)
                return false;
            h = c.begin();
            for (int i = 1; i < k; ++i)
                ++h;
            what += " (hint: block " + std::to_string(k - 1) + " of " + std::to_string(n) + ")";
            return true;
        }
    }

    /** runs f; it must throw std::out_of_range exactly when out says so (2: may throw) */
    template<typename F>
    bool call(int out, F&& f)
    {
        threw = false;
        bool refused = false;
        MC_NOTE("  " << what << " on " << show(r));
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        catch (const mdds::mtv::shared_block_error&)
        {
            threw = refused = true;
        }
        const bool rel = what.rfind("release", 0) == 0;
        if (rel && shared == 2 && out == 0 && !r.empty())
            MC_CHECK(refused, << what << " on " << show(r) << " of shared blocks is not refused");
        if (refused)
        {
            MC_CHECK(rel && shared, << what << " on " << show(r) << " throws shared_block_error");
            return false;
        }
        if (out == 1)
            MC_CHECK(threw, << what << " on " << show(r) << " does not throw");
        if (out == 0)
            MC_CHECK(!threw, << what << " on " << show(r) << " throws out_of_range");
        return !threw;
    }

    template<typename T>
    std::vector<T> values(int len, int first)
    {
        std::vector<T> v;
        for (int i = 0; i < len; ++i)
            v.push_back(mkval<T>(first + i));
        return v;
    }

    template<typename T>
    void drop(std::vector<T>& v)
    {
        if constexpr (std::is_pointer_v<T>)
            for (auto p : v)
                delete p;
    }

    int pos_arg(bool end_is_in)
    {
        // positions 0..size-1+extra (+1 where the size itself is a position)
        return mc::choose(std::max(1, int(r.size()) + b.extra + (end_is_in ? 1 : 0)));
    }

    /** one operation on the container and on the reference */
    void step()
    {
        int op = mc::choose(op_count);
        run_op(op);
    }

    void run_op(int op)
    {
        const int n = int(r.size());
        iterator h, ret;
        bool hinted = false;
        what = op_name[op];
        switch (op)
        {
            case op_set:
            {
                int pos = pos_arg(false);
                int type = 1 + mc::choose(b.types - 1);
                what += " " + std::to_string(pos) + " to " + "-ISM"[type];
                hinted = choose_hint(h);
                int v = ++id;
                Md::with_type(type, [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    T val = mkval<T>(v);
                    if (!call(pos >= n, [&] { ret = hinted ? c.set(h, pos, val) : c.set(pos, val); }))
                        dropval(val);
                });
                if (!threw)
                {
                    r[pos] = {type, v};
                    Md::returned(c, ret, pos, r, what);
                }
                break;
            }
            case op_set_range:
            {
                int pos = pos_arg(false);
                int len = mc::choose(std::max(1, n - pos + b.extra + 1));
                int type = 1 + mc::choose(b.types - 1);
                what += " " + std::to_string(pos) + " x " + std::to_string(len) + " to " + "-ISM"[type];
                hinted = choose_hint(h);
                int v = id + 1;
                id += len;
                Md::with_type(type, [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    auto vals = values<T>(len, v);
                    int out = len == 0 ? (pos >= n ? 2 : 0) : pos + len > n;
                    if (!call(out, [&] {
                            ret = hinted ? c.set(h, pos, vals.begin(), vals.end()) : c.set(pos, vals.begin(), vals.end());
                        }))
                        drop(vals);
                });
                if (!threw)
                {
                    for (int i = 0; i < len; ++i)
                        r[pos + i] = {type, v + i};
                    if (len)
                        Md::returned(c, ret, pos, r, what);
                    else
                        Md::returned_end(c, ret, what);
                }
                break;
            }
            case op_insert_range:
            {
                int pos = pos_arg(false);
                int len = mc::choose(std::min(b.max_len, int(b.max_size) - n) + 1);
                int type = 1 + mc::choose(b.types - 1);
                what += " " + std::to_string(pos) + " x " + std::to_string(len) + " of " + "-ISM"[type];
                hinted = choose_hint(h);
                int v = id + 1;
                id += len;
                Md::with_type(type, [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    auto vals = values<T>(len, v);
                    int out = pos >= n ? (len ? 1 : 2) : 0;
                    if (!call(out, [&] {
                            ret = hinted ? c.insert(h, pos, vals.begin(), vals.end()) : c.insert(pos, vals.begin(), vals.end());
                        }))
                        drop(vals);
                });
                if (!threw)
                {
                    for (int i = 0; i < len; ++i)
                        r.insert(r.begin() + pos + i, cell{type, v + i});
                    if (len)
                        Md::returned(c, ret, pos, r, what);
                    else
                        Md::returned_end(c, ret, what);
                }
                break;
            }
            case op_insert_empty:
            {
                int pos = pos_arg(false);
                int len = mc::choose(std::min(b.max_len, int(b.max_size) - n) + 1);
                what += " " + std::to_string(pos) + " x " + std::to_string(len);
                hinted = choose_hint(h);
                int out = pos >= n ? (len ? 1 : 2) : 0;
                if (call(out, [&] { ret = hinted ? c.insert_empty(h, pos, len) : c.insert_empty(pos, len); }))
                {
                    if (len)
                    {
                        r.insert(r.begin() + pos, len, cell{});
                        Md::returned(c, ret, pos, r, what);
                    }
                    else
                        Md::returned_end(c, ret, what);
                }
                break;
            }
            case op_set_empty:
            case op_release_range:
            {
                int s = pos_arg(false), e = pos_arg(false);
                what += " " + std::to_string(s) + ".." + std::to_string(e);
                hinted = choose_hint(h);
                std::vector<M> rel;
                if constexpr (Md::managed)
                    if (op == op_release_range && s <= e && e < n)
                        for (int i = s; i <= e; ++i)
                            if (r[i].type == 3)
                                rel.push_back(std::as_const(c).template get<M>(i));
                if (call(s > e || e >= n, [&] {
                        if (op == op_set_empty)
                            ret = hinted ? c.set_empty(h, s, e) : c.set_empty(s, e);
                        else
                            ret = hinted ? c.release_range(h, s, e) : c.release_range(s, e);
                    }))
                {
                    std::size_t k = 0;
                    for (int i = s; i <= e; ++i)
                    {
                        if constexpr (Md::managed)
                            if (op == op_release_range && r[i].type == 3)
                            {
                                MC_CHECK(rel[k]->get() == r[i].id, << what << ": a released element changed");
                                delete rel[k++];
                            }
                        r[i] = {};
                    }
                    Md::returned(c, ret, s, r, what);
                }
                break;
            }
            case op_erase:
            {
                int s = pos_arg(false), e = pos_arg(false);
                what += " " + std::to_string(s) + ".." + std::to_string(e);
                if (call(s > e || e >= n, [&] { c.erase(s, e); }))
                    r.erase(r.begin() + s, r.begin() + e + 1);
                break;
            }
            case op_resize:
            {
                int k = mc::choose(std::min(n + 3, int(b.max_size)) + 1);
                what += " to " + std::to_string(k);
                call(0, [&] { c.resize(k); });
                r.resize(k);
                break;
            }
            case op_push_back:
            {
                if (n >= int(b.max_size))
                    throw mc::prune();
                int type = mc::choose(b.types);
                bool lvalue = type && mc::flip();
                what += std::string(" of ") + "-ISM"[type] + (lvalue ? " (lvalue)" : "");
                int v = type ? ++id : 0;
                call(0, [&] {
                    if (!type)
                        ret = c.push_back_empty();
                    else
                        Md::with_type(type, [&](auto* t) {
                            using T = std::remove_pointer_t<decltype(t)>;
                            T val = mkval<T>(v);
                            if (lvalue)
                            {
                                ret = c.push_back(val);
                                MC_CHECK(isval<T>(val, v), << what << " changed the lvalue");
                            }
                            else
                                ret = c.push_back(std::move(val));
                        });
                });
                r.push_back({type, v});
                Md::returned(c, ret, n, r, what);
                break;
            }
            case op_emplace_back:
            {
                if (n >= int(b.max_size))
                    throw mc::prune();
                int type = 1 + mc::choose(Md::managed ? std::min(2, b.types - 1) : b.types - 1);
                what += std::string(" of ") + "-ISM"[type];
                int v = ++id;
                call(0, [&] {
                    Md::with_type(type, [&](auto* t) {
                        using T = std::remove_pointer_t<decltype(t)>;
                        if constexpr (!std::is_pointer_v<T>)
                            ret = c.template emplace_back<T>(mkval<T>(v));
                    });
                });
                r.push_back({type, v});
                Md::returned(c, ret, n, r, what);
                break;
            }
            case op_release_value:
            case op_release_into:
            {
                int pos = pos_arg(false);
                int type = pos < n ? r[pos].type : 1;
                if (!type)
                    type = 1 + mc::choose(b.types - 1); // an empty element may be read as any type
                what += " " + std::to_string(pos);
                if (op == op_release_into)
                    hinted = choose_hint(h);
                Md::with_type(type, [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    T val{};
                    if (!call(pos >= n, [&] {
                            if (op == op_release_value)
                                val = c.template release<T>(pos);
                            else
                                ret = hinted ? c.release(h, pos, val) : c.release(pos, val);
                        }))
                        return;
                    if (r[pos].type)
                    {
                        MC_CHECK(isval<T>(val, r[pos].id), << what << " gives another value");
                        dropval(val);
                    }
                    else
                        MC_CHECK(val == T{}, << what << " of an empty element gives a value");
                });
                if (!threw)
                {
                    r[pos] = {};
                    if (op == op_release_into)
                        Md::returned(c, ret, pos, r, what);
                }
                break;
            }
            case op_release_all:
            {
                std::vector<M> rel;
                if constexpr (Md::managed)
                    for (int i = 0; i < n; ++i)
                        if (r[i].type == 3)
                            rel.push_back(std::as_const(c).template get<M>(i));
                if (!call(0, [&] { c.release(); }))
                    break;
                for (auto& p : rel)
                    dropval(p);
                r.clear();
                break;
            }
            case op_clear:
                call(0, [&] { c.clear(); });
                r.clear();
                break;
            case op_shrink:
                call(0, [&] { c.shrink_to_fit(); });
                break;
        }
        mc::transition();
    }
};

} // namespace mtvh
