// aos multi_type_vector, loop unrolling factors, with OpenMP
// FLAGS: -fopenmp -DMDDS_USE_OPENMP=1
#define MTV(x) aos_##x
#include <mdds/multi_type_vector/aos/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_lu.inc"
LU_SCENARIO(MTV(omp_none), none)
LU_SCENARIO(MTV(omp_lu4), lu4)
LU_SCENARIO(MTV(omp_lu8), lu8)
LU_SCENARIO(MTV(omp_lu16), lu16)
LU_SCENARIO(MTV(omp_lu32), lu32)
