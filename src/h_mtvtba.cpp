// aos multi_type_vector, boolean, double and byte stores
#define MTV(x) aos_bool_##x
#define STORE_SET set_bool
#include <mdds/multi_type_vector/aos/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_store.inc"
