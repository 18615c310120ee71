// Loop-unrolling scenarios; the including file defines container<Tr>, the prefix and the factors (LU_LIST).
#include "mtv_common.hpp"

#ifdef _OPENMP
// A stand-in for the OpenMP run-time: the parts of a parallel loop run one
// after the other, for a chosen number of threads and in a chosen order.
namespace {
int omp_team = 1, omp_self = 0, omp_order = 0;
}
extern "C" {
int omp_get_num_threads() { return omp_team; }
int omp_get_thread_num() { return omp_self; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned, unsigned)
{
    for (int i = 0; i < omp_team; ++i)
    {
        omp_self = omp_order == 0 ? i : omp_order == 1 ? omp_team - 1 - i : (i + 1) % omp_team;
        fn(data);
    }
    omp_self = 0;
}
}
#endif

namespace {

using namespace mtvh;
using lu = mdds::mtv::lu_factor_t;

using set_num = type_set<mdds::mtv::int32_element_block, mdds::mtv::double_element_block, mdds::mtv::uint8_element_block>;

inline const char* lu_op_name[] = {"insert_empty", "insert ints",  "insert doubles", "set int",     "set double", "set doubles",
                                   "set_empty",    "erase",        "resize",         "push_back",   "transfer",   "swap",
                                   "release",      "insert doubles before every block"};
constexpr int lu_ops = 14;

/** n blocks of three elements (int, empty, ...) x one operation at every position of the chosen block */
template<lu F>
void lu_case(int n)
{
    using Tr = traits<set_num, F>;
    using Md = model<container<Tr>, Tr>;
    using C = typename Md::C;
    using I = typename Md::I;
    using S = typename Md::S;
    scoped_ledger led(&Md::touch);
#ifdef _OPENMP
    static constexpr int teams[][2] = {{2, 1}, {3, 2}, {4, 0}, {3, 1}, {2, 0}, {5, 2}};
    const int team = mc::choose(mc::param("teams"));
    omp_team = teams[team][0];
    omp_order = teams[team][1];
#endif
    {
        int id = 0;
        cells r;
        for (int i = 0; i < 3 * n; ++i)
            r.push_back(i / 3 % 2 == 0 ? cell{1, ++id} : cell{});
        const int start = mc::choose(2); // type of the first block
        if (start)
            r.erase(r.begin(), r.begin() + std::min<int>(3, r.size()));
        C c(events{0});
        Md::rebuild(c, r);
        MC_CHECK(int(c.size()) == int(r.size()), << "size of the built container");
        const int sz = int(r.size());
        static constexpr int few[] = {0, 2, 3, 5, 7, 13}; // the others move blocks by the same code
        const bool all = mc::param("all");
        int op = all ? mc::choose(lu_ops) : few[mc::choose(6)];
        bool hint = all && mc::flip();
        int pos = sz ? mc::choose(sz) : 0;
        if (!sz && op != 8 && op != 9)
            throw mc::prune();
        auto it = c.begin();
        std::advance(it, hint && sz ? mc::choose(2) * (run_of(runs(r), pos)) : 0);
        int len = 0;
        auto describe = [&] {
            MC_NOTE(
                n << " blocks, " << sz << " elements, loop unrolling " << int(F) << ": " << lu_op_name[op] << " at " << pos
                  << ", length " << len << (hint ? ", hinted" : ""));
        };
        auto choose_len = [&] {
            static constexpr int lens[] = {1, 3, 7, 2, 4, 5, 6};
            len = lens[mc::choose(mc::param("lens"))];
            if (pos + len > sz)
                throw mc::prune();
            describe();
        };
        auto fill = [&](int at, int n, int type) {
            for (int i = 0; i < n; ++i)
                r[at + i] = {type, type ? ++id : 0};
        };
        auto insert = [&](int at, int n, int type) {
            r.insert(r.begin() + at, n, cell{});
            fill(at, n, type);
        };
        auto vals = [&]<typename T>(T*, int at, int n) {
            std::vector<T> v;
            for (int i = 0; i < n; ++i)
                v.push_back(mkval<T>(r[at + i].id));
            return v;
        };
        typename Md::iterator ret = c.begin();
        bool have_ret = true;
        switch (op)
        {
            case 0:
                len = 1 + mc::choose(2);
                describe();
                insert(pos, len, 0);
                ret = hint ? c.insert_empty(it, pos, len) : c.insert_empty(pos, len);
                break;
            case 1:
            case 2:
            {
                len = 1 + mc::choose(2);
                describe();
                insert(pos, len, op);
                if (op == 1)
                {
                    auto v = vals(static_cast<I*>(nullptr), pos, len);
                    ret = hint ? c.insert(it, pos, v.begin(), v.end()) : c.insert(pos, v.begin(), v.end());
                }
                else
                {
                    auto v = vals(static_cast<S*>(nullptr), pos, len);
                    ret = hint ? c.insert(it, pos, v.begin(), v.end()) : c.insert(pos, v.begin(), v.end());
                }
                break;
            }
            case 3:
                describe();
                fill(pos, 1, 1);
                ret = hint ? c.set(it, pos, mkval<I>(r[pos].id)) : c.set(pos, mkval<I>(r[pos].id));
                break;
            case 4:
                describe();
                fill(pos, 1, 2);
                ret = hint ? c.set(it, pos, mkval<S>(r[pos].id)) : c.set(pos, mkval<S>(r[pos].id));
                break;
            case 5:
            {
                choose_len();
                fill(pos, len, 2);
                auto v = vals(static_cast<S*>(nullptr), pos, len);
                ret = hint ? c.set(it, pos, v.begin(), v.end()) : c.set(pos, v.begin(), v.end());
                break;
            }
            case 6:
                choose_len();
                fill(pos, len, 0);
                ret = hint ? c.set_empty(it, pos, pos + len - 1) : c.set_empty(pos, pos + len - 1);
                break;
            case 7:
                if (hint)
                    throw mc::prune();
                choose_len();
                r.erase(r.begin() + pos, r.begin() + pos + len);
                c.erase(pos, pos + len - 1);
                have_ret = false;
                break;
            case 8:
                if (hint)
                    throw mc::prune();
                len = mc::choose(2) * 4;
                pos = len ? pos : sz;
                describe();
                r.resize(pos + len);
                c.resize(pos + len);
                have_ret = false;
                break;
            case 9:
                if (hint || pos)
                    throw mc::prune();
                describe();
                pos = sz;
                insert(pos, 1, 2);
                ret = c.push_back(mkval<S>(r[pos].id));
                break;
            case 10:
            case 11:
            {
                choose_len();
                C d(events{1});
                cells rd;
                for (int i = 0; i < 30; ++i)
                    rd.push_back(i / 3 % 2 == 0 ? cell{2, ++id} : cell{});
                Md::rebuild(d, rd);
                int dp = 13; // the middle of a block
                if (op == 10)
                {
                    for (int i = 0; i < len; ++i)
                    {
                        rd[dp + i] = r[pos + i];
                        r[pos + i] = {};
                    }
                    if (hint)
                        c.transfer(it, pos, pos + len - 1, d, dp);
                    else
                        c.transfer(pos, pos + len - 1, d, dp);
                }
                else
                {
                    if (hint)
                        throw mc::prune();
                    for (int i = 0; i < len; ++i)
                        std::swap(rd[dp + i], r[pos + i]);
                    c.swap(pos, pos + len - 1, d, dp);
                }
                Md::check(d, rd, "other container");
                Md::check_events(led.l, {&c, &d});
                have_ret = false;
                break;
            }
            case 12:
            {
                if (!r[pos].type)
                    throw mc::prune();
                describe();
                I v = 0;
                ret = hint ? c.release(it, pos, v) : c.release(pos, v);
                MC_CHECK(isval<I>(v, r[pos].id), << "release() gives another value");
                fill(pos, 1, 0);
                break;
            }
            case 13:
                // a long history of shifts: two elements more in front of every block, from the back
                if (hint || pos)
                    throw mc::prune();
                describe();
                for (int i = (sz - 1) / 3 * 3; i >= 0; i -= 3)
                {
                    insert(i, 2, 2);
                    auto v = vals(static_cast<S*>(nullptr), i, 2);
                    ret = c.insert(i, v.begin(), v.end());
                }
                break;
        }
        mc::transition();
        Md::check(c, r, std::string("after ") + lu_op_name[op]);
        if (have_ret)
            Md::returned(c, ret, pos, r, lu_op_name[op]);
        Md::check_events(led.l, {&c});
        mc::state(mc::fp{}.add(n).add(op).add(pos).add(len).get());
    }
    led.none();
}

} // namespace

#ifdef _OPENMP
#define LU_LENS 1
#else
#define LU_LENS 2
#endif
#ifndef LU_ALL
#define LU_ALL 0
#endif

#define LU_SCENARIO(NAME, F)                                                                                           \
    MC_SCENARIO(                                                                                                       \
        NAME, "containers of every number of blocks up to n x every operation that moves blocks, at every position, "  \
              "with and without hint, loop unrolling factor " #F,                                                      \
        {"n", 70, 76, 36, 70}, {"lens", LU_LENS, 7, 1, 3}, {"teams", 2, 6, 2, 2}, {"all", LU_ALL, 1, 0, 1}, {"split", 2, 2, 2, 2})                                            \
    {                                                                                                                  \
        lu_case<lu::F>(mc::choose(mc::param("n") + 1));                                                                \
    }
