// soa multi_type_vector with copy-on-write: a family of containers that share blocks
#include <mdds/multi_type_vector/soa/main.hpp>
#include "mtv_ops.hpp"

#include <algorithm>
#include <optional>

namespace {

using namespace mtvh;

template<typename Set>
using ctraits = traits<Set, mdds::mtv::lu_factor_t::lu16, true>;

/** three containers and what each of them must hold */
template<typename Set, bool Noncopyable>
struct family
{
    using Tr = ctraits<Set>;
    using C = mdds::mtv::soa::multi_type_vector<Tr>;
    using Md = model<C, Tr>;
    static constexpr int N = 3;

    scoped_ledger led{&Md::touch};
    std::optional<C> c[N];
    cells r[N];
    int rel[N][N] = {}; // 0: the two share no block, 2: they share their blocks, 1: the code may do either
    bool once[N] = {}; // it did share blocks, and the others have gone or detached since
    int id = 0;
    std::size_t outside = 0;
    std::string what;

    family()
    {
        for (int i = 0; i < N; ++i)
            c[i].emplace(events{i});
    }

    /** 0: sole owner for certain, 2: certainly not, 1: either */
    int sharing(int k) const
    {
        int v = once[k] ? 1 : 0;
        for (int i = 0; i < N; ++i)
            if (i != k)
                v = std::max(v, rel[k][i]);
        return v;
    }

    void relate(int i, int j, int v)
    {
        rel[i][j] = rel[j][i] = v;
    }

    void own(int k)
    {
        for (int i = 0; i < N; ++i)
            if (i != k)
                relate(i, k, 0);
        once[k] = false;
    }

    /** it may have detached, or not */
    void unsure(int k)
    {
        for (int i = 0; i < N; ++i)
            if (i != k && rel[k][i])
                relate(i, k, 1);
    }

    void joined(int from, int to)
    {
        for (int i = 0; i < N; ++i)
            if (i != from && i != to)
                relate(to, i, rel[from][i]);
        relate(from, to, 2);
        once[from] = once[to] = true;
    }

    /** to takes over what from shares, from owns nothing */
    void handed(int from, int to)
    {
        own(to);
        once[to] = once[from];
        for (int i = 0; i < N; ++i)
            if (i != from && i != to)
                relate(to, i, rel[from][i]);
        own(from);
    }

    std::string groups(int k) const
    {
        std::string t;
        for (int i = 0; i < N; ++i)
            if (i != k && rel[k][i])
                t += (rel[k][i] == 2 ? "=" : "~") + std::to_string(i);
        return t;
    }

    bool copyable(int k) const
    {
        if (Noncopyable)
            for (auto& x : r[k])
                if (x.type == 3)
                    return false;
        return true;
    }

    std::string all() const
    {
        std::string s;
        for (int i = 0; i < N; ++i)
            s += (i ? " " : "") + show(r[i]) + groups(i);
        return s;
    }

    void check()
    {
        static const char* who[] = {"first", "second", "third"};
        for (int i = 0; i < N; ++i)
            Md::check(*c[i], r[i], what + ": " + who[i] + " of " + all());
        Md::check_events(led.l, {&*c[0], &*c[1], &*c[2]});
        if constexpr (Md::managed)
        {
            std::vector<std::pair<const base_element_block*, std::size_t>> blocks;
            for (int i = 0; i < N; ++i)
                for (auto it = std::as_const(*c[i]).begin(), e = std::as_const(*c[i]).end(); !(it == e); ++it)
                    if (it->data && it->type == Set::mblock::block_type)
                        blocks.emplace_back(it->data, it->size);
            std::sort(blocks.begin(), blocks.end());
            blocks.erase(std::unique(blocks.begin(), blocks.end()), blocks.end());
            std::int64_t n = 0;
            for (auto& b : blocks)
                n += b.second;
            MC_CHECK(mobj::live == n, << what << ": " << mobj::live << " managed elements alive, " << n << " in the containers " << all());
        }
        // what the holders of a value share must be what the model allows
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < i; ++j)
                if (!rel[i][j])
                    for (auto a = std::as_const(*c[i]).begin(); !(a == std::as_const(*c[i]).end()); ++a)
                        for (auto b = std::as_const(*c[j]).begin(); !(b == std::as_const(*c[j]).end()); ++b)
                            MC_CHECK(!a->data || a->data != b->data, << what << ": containers share a block they must not share, " << all());
    }

    static constexpr int copy_ways = 6;

    /** to becomes what from is; false if it must not be possible */
    bool copy(int from, int to, int way)
    {
        static const char* names[] = {"copy construction", "copy assignment", "clone", "clone with handler", "move assignment", "move construction"};
        what = std::string(names[way]) + " " + std::to_string(from) + " -> " + std::to_string(to);
        MC_NOTE("  " << what << " of " << all());
        bool threw = false;
        const bool cp = way < 2;
        try
        {
            switch (way)
            {
                case 0:
                {
                    C t(std::as_const(*c[from]));
                    c[to].reset();
                    c[to].emplace(std::move(t));
                    break;
                }
                case 1:
                    *c[to] = std::as_const(*c[from]);
                    break;
                case 2:
                    c[to].emplace(c[from]->clone());
                    break;
                case 3:
                    c[to].emplace(c[from]->clone(events{7}));
                    break;
                case 4:
                    *c[to] = std::move(*c[from]);
                    break;
                case 5:
                {
                    c[to].reset();
                    c[to].emplace(std::move(*c[from]));
                    break;
                }
            }
        }
        catch (const mdds::mtv::element_block_error&)
        {
            threw = true;
        }
        mc::transition();
        MC_CHECK(threw == (cp && !copyable(from)), << what << (threw ? " throws" : " does not throw") << ", " << all());
        if (threw)
            return true;
        r[to] = r[from];
        if (way < 4)
            joined(from, to);
        else
        {
            r[from].clear();
            handed(from, to);
        }
        return true;
    }

    void swap(int i, int j, bool member)
    {
        what = std::string("swap ") + std::to_string(i) + " and " + std::to_string(j);
        MC_NOTE("  " << what << " of " << all());
        if (member)
            c[i]->swap(*c[j]);
        else
            std::swap(*c[i], *c[j]);
        std::swap(r[i], r[j]);
        std::swap(once[i], once[j]);
        const int o = 3 - i - j;
        const int a = rel[i][o], b = rel[j][o];
        relate(i, o, b);
        relate(j, o, a);
        mc::transition();
    }

    void destroy(int k)
    {
        what = "destruction of " + std::to_string(k);
        MC_NOTE("  " << what << " of " << all());
        c[k].reset();
        c[k].emplace(events{k});
        r[k].clear();
        own(k);
        mc::transition();
    }

    void detach(int k)
    {
        what = "detach of " + std::to_string(k);
        MC_NOTE("  " << what << " of " << all());
        c[k]->detach();
        own(k);
        mc::transition();
    }

    void compare(int i, int j)
    {
        if constexpr (!Md::managed || Noncopyable)
            MC_CHECK(
                (std::as_const(*c[i]) == std::as_const(*c[j])) == (r[i] == r[j]), << what << ": == of " << i << " and " << j << ", " << all());
        else if (r[i] != r[j])
            MC_CHECK(!(std::as_const(*c[i]) == std::as_const(*c[j])), << what << ": == of " << i << " and " << j << ", " << all());
    }

    /** an operation on one container with all parameters */
    void mutate(int k, int op, op_bounds b)
    {
        MC_NOTE("  " << op_name[op] << " of container " << k << " of " << all());
        const cells before = r[k];
        ops<Md> o{*c[k], r[k], id, outside, b, {}, false, sharing(k)};
        o.run_op(op);
        what = o.what + " on container " + std::to_string(k);
        if (o.threw || before == r[k])
            unsure(k);
        else
            own(k);
    }

    /** a small choice of operations, with few parameters */
    static constexpr int few_ops = 11;
    void few(int k, int w)
    {
        C& x = *c[k];
        cells& y = r[k];
        const cells before = y;
        const int n = int(y.size());
        auto need = [&](bool ok) {
            if (!ok)
                throw mc::prune();
        };
        auto start = [&](const char* s) {
            what = std::string(s) + " on container " + std::to_string(k);
            MC_NOTE("  " << what << " of " << all());
        };
        switch (w)
        {
            case 0:
                need(n > 0);
                start("set of the first to an object");
                y[0] = {3, ++id};
                x.set(0, mkval<typename Md::M>(id));
                break;
            case 1:
                need(n > 0);
                start("set of the last to an int");
                y[n - 1] = {1, ++id};
                x.set(n - 1, mkval<typename Md::I>(id));
                break;
            case 2:
                need(n < 4);
                start("push_back of an object");
                y.push_back({3, ++id});
                x.push_back(mkval<typename Md::M>(id));
                break;
            case 3:
                need(n > 0);
                start("erase of the first");
                y.erase(y.begin());
                x.erase(0, 0);
                break;
            case 4:
                start("clear");
                y.clear();
                x.clear();
                break;
            case 5:
                need(n > 0);
                start("set_empty of all");
                y.assign(n, cell{});
                x.set_empty(0, n - 1);
                break;
            case 6:
                need(n > 1);
                start("resize to half");
                y.resize(n / 2);
                x.resize(n / 2);
                break;
            case 7:
                need(n < 4 && n > 0);
                start("insert_empty at the front");
                y.insert(y.begin(), cell{});
                x.insert_empty(0, 1);
                break;
            case 8:
                start("shrink_to_fit");
                x.shrink_to_fit();
                break;
            case 9:
            {
                need(n > 0);
                start("release of all");
                std::vector<typename Md::M> rel;
                for (int i = 0; i < n; ++i)
                    if (y[i].type == 3)
                        rel.push_back(std::as_const(x).template get<typename Md::M>(i));
                int sh = sharing(k);
                bool refused = false;
                try
                {
                    x.release_range(0, n - 1);
                }
                catch (const mdds::mtv::shared_block_error&)
                {
                    refused = true;
                }
                if (sh == 2)
                    MC_CHECK(refused, << what << ": release of shared blocks is not refused, " << all());
                if (sh == 0)
                    MC_CHECK(!refused, << what << ": release is refused though nothing is shared, " << all());
                mc::transition();
                if (refused)
                    return;
                int m = 0;
                for (auto& e : y)
                    if (e.type == 3)
                    {
                        MC_CHECK(isval<typename Md::M>(rel[m], e.id), << what << ": released element changed");
                        dropval(rel[m++]);
                    }
                y.assign(n, cell{});
                break;
            }
            case 10:
                need(n < 3);
                start("insertion of two strings at the front");
                if (n)
                {
                    std::vector<typename Md::S> v{mkval<typename Md::S>(id + 1), mkval<typename Md::S>(id + 2)};
                    y.insert(y.begin(), {cell{2, id + 1}, cell{2, id + 2}});
                    x.insert(0, v.begin(), v.end());
                }
                else
                {
                    y.push_back({2, id + 1});
                    x.push_back(mkval<typename Md::S>(id + 1));
                }
                id += 2;
                break;
        }
        mc::transition();
        if (before == y)
            unsure(k);
        else
            own(k);
    }

    /** transfer or swap of a range between two containers */
    void range(int i, int j, bool tr, bool all_params)
    {
        C &x = *c[i], &y = *c[j];
        cells &p = r[i], &q = r[j];
        const int n = int(p.size()), m = int(q.size());
        int s = 0, e = std::min(n, m) - 1, d = 0;
        if (all_params)
        {
            s = mc::choose(std::max(1, n));
            e = s + mc::choose(std::max(1, n - s + 1));
            d = mc::choose(std::max(1, m + 1));
        }
        else if (e < 0)
            throw mc::prune();
        what = std::string(tr ? "transfer " : "range swap ") + std::to_string(s) + ".." + std::to_string(e) + " of " + std::to_string(i) +
               " with " + std::to_string(d) + " of " + std::to_string(j);
        MC_NOTE("  " << what << ", " << all());
        bool out = e >= n || d + e - s >= m, threw = false;
        try
        {
            if (tr)
                x.transfer(s, e, y, d);
            else
                x.swap(s, e, y, d);
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        mc::transition();
        MC_CHECK(threw == out, << what << (threw ? " throws, " : " does not throw, ") << all());
        if (threw)
        {
            unsure(i);
            unsure(j);
            return;
        }
        for (int k = s; k <= e; ++k)
            if (tr)
            {
                q[d + k - s] = p[k];
                p[k] = {};
            }
            else
                std::swap(q[d + k - s], p[k]);
        if (e < s)
        {
            unsure(i);
            unsure(j);
            return;
        }
        own(i);
        own(j);
    }

    void state(int extra)
    {
        mc::fp f;
        for (int i = 0; i < N; ++i)
        {
            f.add(1000 + once[i]);
            for (int j = 0; j < i; ++j)
                f.add(rel[i][j]);
            for (auto& x : r[i])
                f.add(x.type);
        }
        mc::state(f.add(extra).get());
    }

    void finish()
    {
        const bool any = rel[0][1] || rel[0][2] || rel[1][2];
        int order = any ? mc::choose(6) : 0;
        static constexpr int orders[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (int k : orders[order])
        {
            what = "final destruction of " + std::to_string(k);
            MC_NOTE("  " << what);
            c[k].reset();
            r[k].clear();
            for (int i = 0; i < N; ++i)
                if (c[i])
                    Md::check(*c[i], r[i], what);
        }
        led.none();
        Md::check_live({}, outside);
    }
};

/** every shape, shared in every way, x every operation on one of the sharers */
template<typename Set, bool Nc>
void step(int n, int types)
{
    family<Set, Nc> f;
    family<Set, Nc>::Md::choose_shape(*f.c[0], f.r[0], n, types, f.id);
    int shape = mc::choose(4); // 0: only the second shares, 1: also the third (of the first), 2: of the second, 3: third unrelated
    int way = mc::choose(4);
    f.copy(0, 1, way);
    if (shape == 1 || shape == 2)
        f.copy(shape == 1 ? 0 : 1, 2, mc::flip() ? 2 : 1);
    else if (shape == 3)
        f.few(2, 2);
    if (mc::fresh())
        f.check();
    int k = mc::choose(3);
    if (k == 2 && shape == 0)
        throw mc::prune();
    op_bounds b;
    b.types = types;
    b.max_len = 2;
    b.hints = false;
    b.extra = 1;
    int op = mc::choose(op_count + 2);
    if (op < op_count)
        f.mutate(k, op, b);
    else
        f.range(k, (k + 1 + mc::choose(2)) % 3, op == op_count, true);
    if (mc::fresh())
    {
        f.check();
        f.compare(0, 1);
        f.compare(1, 2);
    }
    f.state(way * 10 + shape);
    int gone = mc::choose(4);
    if (gone < 3)
    {
        f.destroy(gone);
        if (mc::fresh())
            f.check();
    }
}

/** every history over a small alphabet of operations on three containers */
template<typename Set, bool Nc>
void history(int ops)
{
    family<Set, Nc> f;
    using F = family<Set, Nc>;
    using C = typename F::C;
    (void)sizeof(C);
    for (int t : {1, 3, 3, 2})
        if (t != 2 || mc::flip())
            F::Md::append(*f.c[0], f.r[0], t, f.id);
    int shape = mc::choose(4);
    if (shape)
        f.copy(0, 1, Nc ? 2 : 0);
    if (shape > 1)
        f.copy(shape == 2 ? 0 : 1, 2, Nc ? 2 : 1);
    static constexpr int pairs[][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
    for (int i = 0; i < ops; ++i)
    {
        switch (mc::choose(6))
        {
            case 0:
            {
                int p = mc::choose(6);
                f.copy(pairs[p][0], pairs[p][1], mc::choose(F::copy_ways));
                break;
            }
            case 1:
            {
                int p = mc::choose(3);
                f.swap(p / 2, p ? 2 : 1, mc::flip());
                break;
            }
            case 2:
                f.destroy(mc::choose(3));
                break;
            case 3:
                f.detach(mc::choose(3));
                break;
            case 4:
            {
                int k = mc::choose(3);
                f.few(k, mc::choose(F::few_ops));
                break;
            }
            case 5:
            {
                int p = mc::choose(6);
                f.range(pairs[p][0], pairs[p][1], mc::flip(), false);
                break;
            }
        }
        if (mc::fresh())
        {
            f.check();
            f.compare(0, 1);
            f.compare(0, 2);
        }
        f.state(0);
    }
    f.finish();
}

} // namespace

MC_SCENARIO(
    cow_step, "every shape, shared by two or three containers in every way, x every operation with every parameter on one of "
              "them, then destruction of any of them",
    {"n", 3, 4, 2, 2}, {"types", 4, 4, 4, 4}, {"split", 4, 4, 4, 4})
{
    step<set_std, false>(mc::param("n"), mc::param("types"));
}

MC_SCENARIO(cow_step_nc, "as cow_step for elements that can only be cloned", {"n", 2, 3, 2, 2}, {"types", 4, 4, 4, 4}, {"split", 4, 4, 4, 4})
{
    step<set_nc, true>(mc::param("n"), mc::param("types"));
}

MC_SCENARIO(
    cow_history, "every history of copies, assignments, clones, moves, swaps, mutations, releases, transfers and destructions "
                 "of three containers, in every order of final destruction",
    {"ops", 3, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    history<set_std, false>(mc::param("ops"));
}

MC_SCENARIO(cow_history_nc, "as cow_history for elements that can only be cloned", {"ops", 3, 4, 2, 3}, {"split", 4, 4, 4, 4})
{
    history<set_nc, true>(mc::param("ops"));
}
