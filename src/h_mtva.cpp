// array-of-structures multi_type_vector, one container
#define MTV(x) aos_##x
#include <mdds/multi_type_vector/aos/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_step.inc"
