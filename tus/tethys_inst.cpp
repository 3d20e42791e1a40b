// instantiations of the Tethys store, its builder, and its encoders
#include <array>
#include <iostream>
#include <memory>
#include <atomic>
#include <vector>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>

namespace vp_inst {
using Key = std::array<uint8_t, 16>;
struct Wide { uint64_t w[3]; };        // 24 bytes: the list headers need padding
constexpr size_t kPage = 4096;
using Enc  = sse::tethys::encoders::EncodeSeparateEncoder<Key, uint64_t, kPage>;
using Dec  = sse::tethys::encoders::EncodeSeparateDecoder<Key, uint64_t, kPage>;
using WEnc = sse::tethys::encoders::EncodeSeparateEncoder<Key, Wide, kPage>;
using WDec = sse::tethys::encoders::EncodeSeparateDecoder<Key, Wide, kPage>;
}
template struct sse::tethys::encoders::EncodeSeparateEncoder<vp_inst::Key, uint64_t, vp_inst::kPage>;
template struct sse::tethys::encoders::EncodeSeparateDecoder<vp_inst::Key, uint64_t, vp_inst::kPage>;
template struct sse::tethys::encoders::EncodeSeparateEncoder<vp_inst::Key, vp_inst::Wide, vp_inst::kPage>;
template struct sse::tethys::encoders::EncodeSeparateDecoder<vp_inst::Key, vp_inst::Wide, vp_inst::kPage>;
template class sse::tethys::encoders::EncryptEncoder<vp_inst::Enc, vp_inst::kPage>;
template class sse::tethys::encoders::DecryptDecoder<vp_inst::Dec, vp_inst::kPage>;
template class sse::tethys::TethysStoreBuilder<vp_inst::kPage, vp_inst::Key, uint64_t, sse::tethys::IdentityHasher, vp_inst::Enc>;
template class sse::tethys::TethysStore<vp_inst::kPage, vp_inst::Key, uint64_t, sse::tethys::IdentityHasher, vp_inst::Dec>;
template class sse::tethys::TethysStoreBuilder<vp_inst::kPage, vp_inst::Key, vp_inst::Wide, sse::tethys::IdentityHasher, vp_inst::WEnc>;
// the constructor that takes its own stash decoder is a member template
void vp_open(const std::string& t, const std::string& s, vp_inst::Dec& d)
{
    sse::tethys::TethysStore<vp_inst::kPage, vp_inst::Key, uint64_t, sse::tethys::IdentityHasher, vp_inst::Dec> store(t, s, d);
}
