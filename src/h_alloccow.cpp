#include "alloc.inc"

namespace {

template<typename Set, bool Noncopyable>
void vectors()
{
    using Tr = traits<Set, mdds::mtv::lu_factor_t::lu16, true>;
    faults<soa_t<Tr>, Tr, Noncopyable>().explore(mc::param("len"), 4);
}

} // namespace

#define SC(NAME, SET, NC, WHAT)                                                                                                     \
    MC_SCENARIO(                                                                                                                    \
        NAME, "every shape, shared in every way x copying, cloning, assigning and every operation that detaches x every allocation " \
              "that fails before it is detached, " WHAT,                                                                            \
        {"split", 3, 3, 3, 3}, {"len", 3, 5, 2, 3})                                                                                 \
    {                                                                                                                               \
        vectors<SET, NC>();                                                                                                         \
    }

SC(cow_alloc, set_std, false, "copyable objects")
SC(cow_alloc_nc, set_nc, true, "objects that can only be cloned")
SC(cow_alloc_deq, set_deq, false, "deque stores")
SC(cow_alloc_ncdeq, set_ncdeq, true, "deque stores, objects that can only be cloned")
