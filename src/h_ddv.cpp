// delayed_delete_vector against std::vector
#include "mc.hpp"
#include "mc_util.hpp"

#include <mdds/multi_type_vector/types.hpp>

#include <list>
#include <stdexcept>
#include <string>
#include <vector>

namespace {

template<typename T>
T mk(int id)
{
    if constexpr (std::is_same_v<T, std::string>)
        return "a value that does not fit the small buffer " + std::to_string(id);
    else if constexpr (std::is_same_v<T, bool>)
        return id % 3 == 1;
    else
        return T(id);
}

template<typename T>
std::string str(const std::vector<T>& v)
{
    std::string s = "[";
    for (const auto& x : v)
    {
        if constexpr (std::is_same_v<T, std::string>)
            s += x.substr(x.rfind(' ') + 1) + ' ';
        else if constexpr (std::is_arithmetic_v<T>)
            s += std::to_string(x) + ' ';
        else
            s += std::to_string(x.get()) + ' ';
    }
    return s + "]";
}

template<typename T>
struct world
{
    using V = mdds::mtv::delayed_delete_vector<T>;
    using M = std::vector<T>;
    V v[2];
    M m[2];
    int id = 0;
    std::string what;

    T next() { return mk<T>(++id); }

    static void rejected(auto&& f, const std::string& w)
    {
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            return;
        }
        mc::fail(w + " does not throw out_of_range");
    }

    void check(int k)
    {
        V& a = v[k];
        const V& ca = a;
        const M& r = m[k];
        const std::string w = what + ": vector " + std::to_string(k) + " should be " + str(r) + ": ";
        MC_CHECK(ca.size() == r.size(), << w << "size() is " << ca.size());
        MC_CHECK(ca.capacity() >= r.size(), << w << "capacity() is " << ca.capacity());
        auto seq = [&](auto b, auto e, auto rb, auto re, const char* n) {
            MC_CHECK(std::size_t(e - b) == r.size(), << w << n << " distance");
            for (; b != e && rb != re; ++b, ++rb)
                MC_CHECK(T(*b) == T(*rb), << w << n << " iteration");
        };
        seq(a.begin(), a.end(), r.begin(), r.end(), "forward");
        seq(ca.begin(), ca.end(), r.begin(), r.end(), "const forward");
        seq(a.rbegin(), a.rend(), r.rbegin(), r.rend(), "reverse");
        seq(ca.rbegin(), ca.rend(), r.rbegin(), r.rend(), "const reverse");
        for (std::size_t i = 0; i < r.size(); ++i)
        {
            MC_CHECK(T(a[i]) == r[i], << w << "operator[] " << i);
            MC_CHECK(T(ca[i]) == r[i], << w << "operator[] const " << i);
            MC_CHECK(T(a.at(i)) == r[i], << w << "at() " << i);
            MC_CHECK(T(ca.at(i)) == r[i], << w << "at() const " << i);
            if constexpr (!std::is_same_v<T, bool>)
            {
                MC_CHECK(a.data()[i] == r[i], << w << "data() " << i);
                MC_CHECK(ca.data()[i] == r[i], << w << "data() const " << i);
            }
        }
        for (std::size_t far : {r.size(), std::size_t(-1)})
        {
            rejected([&] { (void)a.at(far); }, w + "at(" + std::to_string(far) + ")");
            rejected([&] { (void)ca.at(far); }, w + "at(" + std::to_string(far) + ") const");
        }
    }

    void check()
    {
        check(0);
        check(1);
        MC_CHECK((v[0] == v[1]) == (m[0] == m[1]), << what << ": operator== of " << str(m[0]) << " and " << str(m[1]));
        MC_CHECK((v[0] != v[1]) == (m[0] != m[1]), << what << ": operator!= of " << str(m[0]) << " and " << str(m[1]));
        MC_CHECK(v[0] == V(m[0].begin(), m[0].end()), << what << ": not equal to a vector built from " << str(m[0]));
        if (!m[0].empty())
        {
            M o(m[0].begin(), m[0].end() - 1);
            MC_CHECK(!(v[0] == V(o.begin(), o.end())), << what << ": equal to a shorter vector, " << str(m[0]));
            MC_CHECK(!(V(o.begin(), o.end()) == v[0]), << what << ": a shorter vector is equal to " << str(m[0]));
        }
    }

    void one(int k, int max, bool last)
    {
        V& a = v[k];
        M& r = m[k];
        const int n = int(r.size());
        const std::string on = " on " + str(r) + (k ? " (second)" : "");
        auto note = [&](const std::string& s) {
            what = s + on;
            MC_NOTE("  " << what);
        };
        auto room = [&](int len) {
            if (n + len > max)
                throw mc::prune();
        };
        auto fresh_values = [&](int len) {
            M x;
            for (int i = 0; i < len; ++i)
                x.push_back(next());
            return x;
        };
        // before the last operation only those that lead to different states
        static constexpr int few[] = {0, 3, 5, 6, 7, 8, 9, 11, 14, 15};
        switch (last ? mc::choose(16) : few[mc::choose(10)])
        {
            case 0:
            {
                room(1);
                note("push_back(const&)");
                const T x = next();
                a.push_back(x);
                r.push_back(x);
                break;
            }
            case 1:
            {
                room(1);
                note("push_back(&&)");
                T x = next();
                r.push_back(x);
                a.push_back(std::move(x));
                break;
            }
            case 2:
            {
                room(1);
                note("emplace_back");
                T x = next();
                r.emplace_back(x);
                a.emplace_back(x);
                break;
            }
            case 3:
            {
                room(1);
                int p = mc::choose(n + 1);
                note("insert(" + std::to_string(p) + ", const&)");
                const T x = next();
                auto it = a.insert(a.begin() + p, x);
                r.insert(r.begin() + p, x);
                MC_CHECK(it == a.begin() + p, << what << ": returned iterator");
                break;
            }
            case 4:
            {
                room(1);
                int p = mc::choose(n + 1);
                note("insert(" + std::to_string(p) + ", &&)");
                T x = next();
                r.insert(r.begin() + p, x);
                auto it = a.insert(a.begin() + p, std::move(x));
                MC_CHECK(it == a.begin() + p, << what << ": returned iterator");
                break;
            }
            case 5:
            {
                int p = mc::choose(n + 1), len = mc::choose(3);
                room(len);
                note("insert(" + std::to_string(p) + ", range of " + std::to_string(len) + ")");
                M x = fresh_values(len);
                if (last && mc::flip())
                {
                    std::list<T> l(x.begin(), x.end());
                    a.insert(a.begin() + p, l.begin(), l.end());
                }
                else
                    a.insert(a.begin() + p, x.begin(), x.end());
                r.insert(r.begin() + p, x.begin(), x.end());
                break;
            }
            case 6:
            {
                if (!n)
                    throw mc::prune();
                int p = mc::choose(n);
                note("erase(" + std::to_string(p) + ")");
                auto it = a.erase(a.begin() + p);
                r.erase(r.begin() + p);
                MC_CHECK(it == a.begin() + p, << what << ": returned iterator");
                break;
            }
            case 7:
            {
                int p = mc::choose(n + 1), e = p + mc::choose(n - p + 1);
                note("erase(" + std::to_string(p) + ", " + std::to_string(e) + ")");
                auto it = a.erase(a.begin() + p, a.begin() + e);
                r.erase(r.begin() + p, r.begin() + e);
                MC_CHECK(it == a.begin() + p, << what << ": returned iterator");
                break;
            }
            case 8:
            {
                int s = mc::choose(max + 1);
                note("resize(" + std::to_string(s) + ")");
                a.resize(s);
                r.resize(s);
                break;
            }
            case 9:
                note("shrink_to_fit");
                a.shrink_to_fit();
                break;
            case 10:
            {
                int s = mc::choose(3) * (max / 2 + 1);
                note("reserve(" + std::to_string(s) + ")");
                a.reserve(s);
                MC_CHECK(a.capacity() >= std::size_t(s), << what << ": capacity");
                break;
            }
            case 11:
            {
                int len = mc::choose(max);
                note("assign of " + std::to_string(len));
                M x = fresh_values(len);
                a.assign(x.begin(), x.end());
                r = x;
                break;
            }
            case 12:
            {
                if (!n)
                    throw mc::prune();
                int p = mc::choose(n), w = mc::choose(3);
                note("write to element " + std::to_string(p) + " by way " + std::to_string(w));
                T x = next();
                if (w == 0)
                    a[p] = x;
                else if (w == 1)
                    a.at(p) = x;
                else
                    *(a.rend() - 1 - p) = x;
                r[p] = x;
                break;
            }
            case 13:
            {
                if (!n)
                    throw mc::prune();
                room(1);
                int p = mc::choose(n), w = mc::choose(3);
                note("append of its own element " + std::to_string(p) + " by way " + std::to_string(w));
                T x = r[p];
                if (w == 0)
                    a.push_back(a[p]);
                else if (w == 1)
                    a.emplace_back(a[p]);
                else
                    a.insert(a.end(), a[p]);
                r.push_back(x);
                break;
            }
            case 14:
            {
                int s = mc::choose(3), w = last ? mc::choose(3) : 2;
                note("construction of " + std::to_string(s) + " by way " + std::to_string(w));
                if (w == 0)
                {
                    a = V(std::size_t(s));
                    r = M(s);
                }
                else if (w == 1)
                {
                    T x = next();
                    a = V(std::size_t(s), x);
                    r = M(s, x);
                }
                else
                {
                    M x = fresh_values(s);
                    a = V(x.begin(), x.end());
                    r = x;
                }
                break;
            }
            case 15:
            {
                V& self = a;
                switch (last ? mc::choose(3) : 2)
                {
                    case 0:
                        note("self copy assignment");
                        a = self;
                        break;
                    case 1:
                        note("self swap");
                        a.swap(a);
                        break;
                    case 2:
                    {
                        note("moved out and back");
                        V t(std::move(a));
                        if (mc::flip())
                        {
                            a.push_back(mk<T>(500)); // a moved-from vector is usable
                            MC_CHECK(a.size() == 1 && T(a[0]) == mk<T>(500), << what << ": push_back to the moved-from vector");
                        }
                        a = std::move(t);
                        MC_CHECK(t.size() == 0 && t.begin() == t.end(), << what << ": moved-from vector is not empty");
                        break;
                    }
                }
                break;
            }
        }
    }

    void two(bool last)
    {
        int k = mc::choose(2);
        V &a = v[k], &b = v[1 - k];
        M &r = m[k], &q = m[1 - k];
        static const char* names[] = {"swap", "copy construction", "copy assignment", "std::swap", "move assignment", "move construction"};
        int op = last ? mc::choose(6) : mc::choose(3) * 2;
        what = std::string(names[op]) + " of " + str(r) + " and " + str(q);
        MC_NOTE("  " << what);
        switch (op)
        {
            case 0:
                a.swap(b);
                r.swap(q);
                break;
            case 2:
                a = b;
                r = q;
                break;
            case 1:
            {
                V t(b);
                a.swap(t);
                r = q;
                break;
            }
            case 4:
                a = std::move(b);
                r = std::move(q);
                q.clear();
                break;
            case 5:
            {
                V t(std::move(b));
                check_empty(b);
                b = std::move(a);
                a = std::move(t);
                r.swap(q);
                break;
            }
            case 3:
                std::swap(a, b);
                r.swap(q);
                break;
        }
    }

    void check_empty(const V& x)
    {
        MC_CHECK(x.size() == 0 && x.begin() == x.end() && x.rbegin() == x.rend(), << what << ": a moved-from vector is not empty");
    }

    void run(int ops, int max, bool both)
    {
        for (int i = 0; i < ops; ++i)
        {
            int k = both ? mc::choose(3) : 0;
            if (k == 2)
                two(i + 1 == ops);
            else
                one(k, max, i + 1 == ops);
            mc::transition();
            if (mc::fresh())
                check();
            mc::state(mc::fp{}.add(str(m[0])).add(str(m[1])).get());
        }
    }
};

} // namespace

MC_SCENARIO(ddv_int, "every history of one vector of int", {"ops", 4, 5, 3, 4}, {"max", 4, 4, 3, 4}, {"split", 3, 3, 3, 3})
{
    world<int>().run(mc::param("ops"), mc::param("max"), false);
}

MC_SCENARIO(ddv_string, "every history of one vector of strings", {"ops", 4, 5, 3, 4}, {"max", 4, 4, 3, 4}, {"split", 3, 3, 3, 3})
{
    world<std::string>().run(mc::param("ops"), mc::param("max"), false);
}

MC_SCENARIO(ddv_bool, "every history of one vector of bool", {"ops", 4, 5, 3, 4}, {"max", 4, 4, 3, 4}, {"split", 3, 3, 3, 3})
{
    world<bool>().run(mc::param("ops"), mc::param("max"), false);
}

MC_SCENARIO(ddv_two, "every history of two vectors of strings with copies, moves and swaps", {"ops", 3, 4, 3, 3}, {"max", 3, 3, 2, 3}, {"split", 3, 3, 3, 3})
{
    world<std::string>().run(mc::param("ops"), mc::param("max"), true);
}

MC_SCENARIO(ddv_two_int, "every history of two vectors of int with copies, moves and swaps", {"ops", 3, 5, 3, 4}, {"max", 3, 2, 2, 2}, {"split", 3, 3, 3, 3})
{
    world<int>().run(mc::param("ops"), mc::param("max"), true);
}

MC_SCENARIO(
    ddv_deep, "long histories of pushing to the back and erasing from the front of one vector, with a copy, move, swap or "
              "comparison of the two vectors at every point",
    {"ops", 9, 12, 7, 9}, {"split", 4, 4, 4, 4})
{
    world<int> w;
    for (int i = 0; i < mc::param("ops"); ++i)
    {
        int k = mc::choose(4);
        if (k == 0)
        {
            int x = w.next();
            w.what = "push_back on " + str(w.m[0]);
            w.v[0].push_back(x);
            w.m[0].push_back(x);
        }
        else if (k == 1)
        {
            if (w.m[0].empty())
                throw mc::prune();
            w.what = "erase of the first of " + str(w.m[0]);
            w.v[0].erase(w.v[0].begin());
            w.m[0].erase(w.m[0].begin());
        }
        else if (k == 2)
        {
            w.what = "swap of " + str(w.m[0]) + " and " + str(w.m[1]);
            w.v[0].swap(w.v[1]);
            w.m[0].swap(w.m[1]);
        }
        else
        {
            w.what = "insert at the front of " + str(w.m[0]);
            int x = w.next();
            w.v[0].insert(w.v[0].begin(), x);
            w.m[0].insert(w.m[0].begin(), x);
        }
        MC_NOTE("  " << w.what);
        mc::transition();
        if (mc::fresh())
            w.check();
        mc::state(mc::fp{}.add(str(w.m[0])).add(str(w.m[1])).get());
    }
}
