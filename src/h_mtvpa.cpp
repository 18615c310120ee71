// aos multi_type_vector, two containers, copies, positions
#define MTV(x) aos_##x
#include <mdds/multi_type_vector/aos/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_pair.inc"
