// Single-container scenarios; the including file defines container<Tr> and the scenario prefix.
#include "mtv_ops.hpp"

namespace {

using namespace mtvh;

#ifndef MTV_MD
#define MTV_MD
template<typename Tr>
using md = model<container<Tr>, Tr>;
#endif

/** shape x one operation with all parameters and hints, then optional further operations */
template<typename Tr>
void steps(int maxlen, int nops, op_bounds b, bool rebuilt)
{
    using Md = md<Tr>;
    scoped_ledger led(&Md::touch);
    std::size_t outside = 0;
    int id = 0;
    cells r;
    {
        typename Md::C c(events{0});
        if (rebuilt)
        {
            int n = mc::choose(maxlen + 1);
            for (int i = 0; i < n; ++i)
            {
                int t = mc::choose(b.types);
                r.push_back({t, t ? ++id : 0});
            }
            Md::rebuild(c, r);
        }
        else
            Md::choose_shape(c, r, maxlen, b.types, id);
        MC_NOTE("initial: " << show(r));
        if (mc::fresh())
            Md::check(c, r, "built container");
        ops<Md> o{c, r, id, outside, b, {}, false};
        for (int i = 0; i < nops; ++i)
        {
            o.b.hints = b.hints && i + 1 == nops;
            o.step();
            if (mc::fresh())
            {
                Md::check(c, r, "after " + o.what);
                Md::check_events(led.l, {&c});
                Md::check_live({&r}, outside);
            }
        }
        mc::fp f;
        for (auto& x : r)
            f.add(x.type);
        mc::state(f.add(r.size()).get());
    }
    r.clear();
    Md::check_live({&r}, outside);
    led.none();
}

} // namespace

#ifndef MTV_NO_SCENARIOS

MC_SCENARIO(
    MTV(step), "every shape up to n elements over {empty, int, string, managed} x every operation with every position, length "
               "and type x no hint and every hint",
    {"n", 5, 6, 3, 4}, {"split", 5, 5, 5, 5})
{
    op_bounds b;
    steps<traits<set_std>>(mc::param("n"), 1, b, false);
}

MC_SCENARIO(
    MTV(step3), "as step with three element types and longer shapes built by range operations",
    {"n", 6, 8, 3, 5}, {"split", 5, 5, 5, 5})
{
    op_bounds b;
    b.types = 3;
    b.max_len = 2;
    steps<traits<set_std>>(mc::param("n"), 1, b, true);
}

MC_SCENARIO(
    MTV(steps), "every shape up to n elements x every sequence of operations (hints on the last one)",
    {"n", 2, 4, 1, 2}, {"ops", 2, 2, 2, 2}, {"split", 5, 5, 5, 5})
{
    op_bounds b;
    b.max_len = 2;
    steps<traits<set_std>>(mc::param("n"), mc::param("ops"), b, false);
}

MC_SCENARIO(
    MTV(history), "every history of operations from the empty container, at most n elements, all types",
    {"ops", 4, 4, 3, 4}, {"n", 3, 4, 3, 3}, {"split", 3, 3, 3, 3})
{
    op_bounds b;
    b.max_len = 2;
    b.hints = false;
    b.extra = 0;
    b.max_size = mc::param("n");
    steps<traits<set_std>>(0, mc::param("ops"), b, false);
}

#endif
