// instantiations of the write-once vector
#include <array>
#include <memory>
#include <sse/schemes/abstractio/awonvm_vector.hpp>

namespace vp_inst {
struct Page { uint64_t w[512]; bool operator==(const Page& o) const; bool operator!=(const Page& o) const; };      // 4096 bytes
struct Small { uint64_t w[3]; bool operator==(const Small& o) const; bool operator!=(const Small& o) const; };       // 24 bytes, not a power of two
}
template class sse::abstractio::awonvm_vector<vp_inst::Page, 4096>;
template class sse::abstractio::awonvm_vector<vp_inst::Small, 8>;
