// instantiations of the Tethys builder, client and server, and of the encryption of the buckets
#include <array>
#include <atomic>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <vector>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>

namespace vp_inst {
constexpr size_t kPage = 4096;
using Key = sse::tethys::tethys_core_key_type;
using Idx = sse::tethys::index_type;
using Enc = sse::tethys::encoders::EncodeSeparateEncoder<Key, Idx, kPage>;
using Dec = sse::tethys::encoders::EncodeSeparateDecoder<Key, Idx, kPage>;
}
template class sse::tethys::encoders::EncryptEncoder<vp_inst::Enc, vp_inst::kPage>;
template class sse::tethys::encoders::DecryptDecoder<vp_inst::Dec, vp_inst::kPage>;
template class sse::tethys::TethysBuilder<vp_inst::kPage, vp_inst::Enc>;
template class sse::tethys::details::GenericTethysBuilder<sse::tethys::TethysStoreBuilder<vp_inst::kPage, vp_inst::Key, vp_inst::Idx, sse::tethys::IdentityHasher, vp_inst::Enc>>;
template class sse::tethys::TethysServer<sse::tethys::tethys_server_store_type<vp_inst::kPage>>;
template class sse::tethys::TethysClient<vp_inst::Dec>;
// the constructor that takes its own stash decoder is a member template
void vp_client(const std::string& c, const std::string& s, vp_inst::Dec& d, sse::crypto::Key<32>&& k,
               std::array<uint8_t, 32> e)
{
    sse::tethys::TethysClient<vp_inst::Dec> client(c, s, d, std::move(k), e);
}
