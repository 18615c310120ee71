// soa multi_type_vector, deque stores
#define MTV(x) soa_deq_##x
#define STORE_SET set_deq
#include <mdds/multi_type_vector/soa/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::soa::multi_type_vector<Tr>;
}
#include "mtv_store.inc"
