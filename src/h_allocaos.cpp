#include "alloc.inc"

namespace {

template<template<typename> class C, typename Set, bool Noncopyable>
void vectors()
{
    using Tr = traits<Set>;
    faults<C<Tr>, Tr, Noncopyable>().explore(mc::param("len"), 4);
}

} // namespace

#define SC(NAME, L, SET, NC, WHAT)                                                                                                  \
    MC_SCENARIO(                                                                                                                    \
        NAME, "every shape x copying, cloning and assigning x every allocation that fails, " WHAT, {"split", 2, 2, 2, 2},           \
        {"len", 6, 8, 4, 6})                                                                                                        \
    {                                                                                                                               \
        vectors<L##_t, SET, NC>();                                                                                                  \
    }

SC(aos_alloc, aos, set_std, false, "aos")
SC(aos_alloc_nc, aos, set_nc, true, "aos, objects that can only be cloned")
SC(aos_alloc_vec, aos, set_vec, false, "aos, vector stores")
SC(aos_alloc_deq, aos, set_deq, false, "aos, deque stores")

