// soa multi_type_vector, SSE2 loop unrolling factors
#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_lu.inc"
LU_SCENARIO(MTV(sse2_x64), sse2_x64)
LU_SCENARIO(MTV(sse2_x64_lu4), sse2_x64_lu4)
LU_SCENARIO(MTV(sse2_x64_lu8), sse2_x64_lu8)
LU_SCENARIO(MTV(sse2_x64_lu16), sse2_x64_lu16)
