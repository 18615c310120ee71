// soa multi_type_vector, two containers, copies, positions
#define MTV(x) soa_##x
#include <mdds/multi_type_vector/soa/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_pair.inc"
