// soa multi_type_vector, AVX2 loop unrolling factors
// FLAGS: -mavx2
// CPU: avx2
#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_lu.inc"
LU_SCENARIO(MTV(avx2_x64), avx2_x64)
LU_SCENARIO(MTV(avx2_x64_lu4), avx2_x64_lu4)
LU_SCENARIO(MTV(avx2_x64_lu8), avx2_x64_lu8)
