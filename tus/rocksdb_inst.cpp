// instantiations of the header-only RocksDB stores
#include <sse/schemes/utils/rocksdb_wrapper.hpp>

namespace vp_inst {
struct Rec {
    uint64_t a;
    uint32_t b;
    bool operator==(const Rec& r) const;
    bool operator!=(const Rec& r) const;
    bool operator<(const Rec& r) const;
};
std::ostream& operator<<(std::ostream& o, const Rec& r);
struct RecSer {
    std::string serialize(const Rec& r);
    bool deserialize(std::string::iterator& begin, const std::string::iterator& end, Rec& out);
};
}
using namespace sse::sophos;
template bool RockDBWrapper::get<16, uint64_t>(const std::array<uint8_t, 16>&, uint64_t&) const;
template bool RockDBWrapper::get<vp_inst::Rec>(const uint8_t*, const uint8_t, vp_inst::Rec&) const;
template bool RockDBWrapper::put<16, uint64_t>(const std::array<uint8_t, 16>&, const uint64_t&);
template bool RockDBWrapper::remove<16>(const std::array<uint8_t, 16>&);
template class sse::sophos::RockDBListStore<vp_inst::Rec, vp_inst::RecSer>;
template bool RockDBListStore<vp_inst::Rec, vp_inst::RecSer>::get<16>(const std::array<uint8_t, 16>&, std::list<vp_inst::Rec>&, vp_inst::RecSer&) const;
template bool RockDBListStore<vp_inst::Rec, vp_inst::RecSer>::put<16>(const std::array<uint8_t, 16>&, const std::list<vp_inst::Rec>&, vp_inst::RecSer&);
