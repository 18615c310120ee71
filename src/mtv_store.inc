// Stores of the element blocks; the including file defines container<Tr>, the prefix and STORE_SET.
#define MTV_NO_SCENARIOS
#define MTV_ACCESS
#include "mtv_step.inc"
#include "mtv_pair.inc"

MC_SCENARIO(
    MTV(store_step), "every shape x every operation (and hint), every access to the elements of every block",
    {"n", 4, 5, 2, 4}, {"split", 5, 5, 5, 5})
{
    op_bounds b;
    b.max_len = 2;
    steps<traits<STORE_SET>>(mc::param("n"), 1, b, false);
}

MC_SCENARIO(
    MTV(store_steps), "every shape x every sequence of operations", {"n", 1, 3, 1, 1}, {"ops", 2, 2, 2, 2}, {"split", 5, 5, 5, 5})
{
    op_bounds b;
    b.max_len = 2;
    b.hints = false;
    steps<traits<STORE_SET>>(mc::param("n"), mc::param("ops"), b, true);
}

MC_SCENARIO(
    MTV(store_history), "every history of operations from the empty container, at most n elements", {"ops", 3, 4, 2, 3},
    {"n", 3, 3, 3, 3}, {"split", 3, 3, 3, 3})
{
    op_bounds b;
    b.max_len = 2;
    b.hints = false;
    b.extra = 0;
    b.max_size = mc::param("n");
    steps<traits<STORE_SET>>(0, mc::param("ops"), b, false);
}

MC_SCENARIO(
    MTV(store_pair), "every pair of shapes x transfer and swap of every range", {"n", 3, 3, 2, 2}, {"m", 2, 3, 1, 2}, {"split", 5, 5, 5, 5})
{
    pairs<traits<STORE_SET>>(mc::param("n"), mc::param("m"), 4, 1);
}

MC_SCENARIO(
    MTV(store_copy), "every shape x every way to copy, then every operation on either container", {"n", 2, 3, 1, 2},
    {"m", 1, 1, 1, 1}, {"split", 4, 4, 4, 4})
{
    copies<traits<STORE_SET>>(mc::param("n"), mc::param("m"), true);
}
