#include "alloc.inc"

namespace {

template<template<typename> class C, typename Set, bool Noncopyable>
void vectors()
{
    using Tr = traits<Set>;
    faults<C<Tr>, Tr, Noncopyable>().explore(mc::param("len"), 4);
}

} // namespace

#define SC(NAME, L, SET, NC, WHAT)                                                                                                  \
    MC_SCENARIO(                                                                                                                    \
        NAME, "every shape x copying, cloning and assigning x every allocation that fails, " WHAT, {"split", 2, 2, 2, 2},           \
        {"len", 6, 8, 4, 6})                                                                                                        \
    {                                                                                                                               \
        vectors<L##_t, SET, NC>();                                                                                                  \
    }

SC(soa_alloc, soa, set_std, false, "soa")
SC(soa_alloc_nc, soa, set_nc, true, "soa, objects that can only be cloned")
SC(soa_alloc_vec, soa, set_vec, false, "soa, vector stores")
SC(soa_alloc_deq, soa, set_deq, false, "soa, deque stores")
SC(soa_alloc_ncdeq, soa, set_ncdeq, true, "soa, deque stores, objects that can only be cloned")
