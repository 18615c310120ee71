// soa multi_type_vector, loop unrolling factors, with OpenMP
// FLAGS: -fopenmp -DMDDS_USE_OPENMP=1
#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_lu.inc"
LU_SCENARIO(MTV(omp_none), none)
LU_SCENARIO(MTV(omp_lu4), lu4)
LU_SCENARIO(MTV(omp_lu8), lu8)
LU_SCENARIO(MTV(omp_lu16), lu16)
LU_SCENARIO(MTV(omp_lu32), lu32)
LU_SCENARIO(MTV(omp_sse2_x64), sse2_x64)
LU_SCENARIO(MTV(omp_sse2_x64_lu4), sse2_x64_lu4)
LU_SCENARIO(MTV(omp_sse2_x64_lu8), sse2_x64_lu8)
LU_SCENARIO(MTV(omp_sse2_x64_lu16), sse2_x64_lu16)
