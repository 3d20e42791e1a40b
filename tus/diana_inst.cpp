#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_common.hpp>
#include <sse/schemes/diana/diana_server.hpp>

template class sse::diana::DianaClient<uint64_t>;
template class sse::diana::DianaServer<uint64_t>;
template class sse::diana::DianaClient<std::array<uint8_t, 24>>;
template class sse::diana::DianaServer<std::array<uint8_t, 24>>;
