// aos multi_type_vector, deque stores
#define MTV(x) aos_deq_##x
#define STORE_SET set_deq
#include <mdds/multi_type_vector/aos/main.hpp>
#include <optional>
namespace {
template<typename Tr>
using container = mdds::mtv::aos::multi_type_vector<Tr>;
}
#include "mtv_store.inc"
