// aos multi_type_vector, vector stores
#define MTV(x) aos_vec_##x
#define STORE_SET set_vec
#include <mdds/multi_type_vector/aos/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_store.inc"
