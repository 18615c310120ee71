// aos multi_type_vector, loop unrolling factors
#define MTV(x) aos_##x
#include <mdds/multi_type_vector/aos/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_lu.inc"
LU_SCENARIO(MTV(lu_none), none)
LU_SCENARIO(MTV(lu_lu4), lu4)
LU_SCENARIO(MTV(lu_lu8), lu8)
LU_SCENARIO(MTV(lu_lu16), lu16)
LU_SCENARIO(MTV(lu_lu32), lu32)
