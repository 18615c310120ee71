// Self test of the enumeration engine: spaces of known size, a planted
// failure, a planted crash and a planted leak.
#include "mc.hpp"

MC_SCENARIO(count_tree, "3*4*2*5*2 leaves", {"x", 0, 0, 0, 0})
{
    int a = mc::choose(3), b = mc::choose(4);
    bool c = mc::flip();
    int d = mc::choose(5);
    bool e = mc::flip();
    mc::state(mc::fp().add(a).add(b).add(c).add(d).add(e).get());
    mc::transition();
}
MC_SCENARIO(count_uneven, "sum over n of n", {"x", 0, 0, 0, 0})
{
    int n = mc::choose(9);
    int k = mc::choose(n + 1);
    if (k == 0)
        return;
    mc::choose(k);
}
MC_SCENARIO(graph, "counter modulo 50 with +1/+7 steps, states merged", {"depth", 60, 60, 60, 60})
{
    int v = 0;
    for (int i = 0; i < mc::param("depth"); ++i)
    {
        v = (v + (mc::flip() ? 7 : 1)) % 50;
        mc::visit(mc::fp().add(v).get(), 0);
    }
}
MC_SCENARIO(bad_assert, "one failing leaf", {"x", 0, 0, 0, 0})
{
    int a = mc::choose(20), b = mc::choose(20), c = mc::choose(20);
    MC_NOTE("picked " << a << " " << b << " " << c);
    MC_CHECK(!(a == 13 && b == 17 && c == 19), << "planted");
}
MC_SCENARIO(bad_crash, "one crashing leaf", {"x", 0, 0, 0, 0})
{
    int a = mc::choose(20), b = mc::choose(20), c = mc::choose(20);
    if (a == 3 && b == 7 && c == 19)
        *reinterpret_cast<volatile int*>(8) = 1;
}
MC_SCENARIO(bad_leak, "one leaking leaf", {"x", 0, 0, 0, 0})
{
    int a = mc::choose(20), b = mc::choose(20), c = mc::choose(20);
    static int* volatile sink;
    if (a == 3 && b == 7 && c == 19)
        sink = new int(3);
    (void)sink;
}
MC_SCENARIO(bad_hang, "one leaf that does not terminate", {"x", 0, 0, 0, 0})
{
    int a = mc::choose(20), b = mc::choose(20), c = mc::choose(20);
    volatile bool go = a == 3 && b == 7 && c == 19;
    while (go)
        ;
}
