// soa multi_type_vector, extreme positions
#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_range.inc"
