// soa multi_type_vector, boolean, double and byte stores
#define MTV(x) soa_bool_##x
#define STORE_SET set_bool
#include <mdds/multi_type_vector/soa/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_store.inc"
