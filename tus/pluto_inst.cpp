// instantiations of Pluto, with both hash tables it can be used with
#include <array>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/random.hpp>
#include <sse/schemes/tethys/types.hpp>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/pluto/types.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>

namespace sse {
namespace pluto {
template class PlutoBuilder<DefaultPlutoParams<4096>>;
template class PlutoBuilder<RocksDBPlutoParams<4096>>;
template class PlutoServer<DefaultPlutoParams<4096>>;
template class PlutoServer<RocksDBPlutoParams<4096>>;
template class PlutoClient<tethys::encoders::EncodeSeparateDecoder<tethys::tethys_core_key_type, index_type, 4096>>;
template struct PlutoValueSerializer<DefaultPlutoParams<4096>>;
} // namespace pluto
} // namespace sse

namespace vp_inst {
using PDec = sse::tethys::encoders::EncodeSeparateDecoder<sse::tethys::tethys_core_key_type, sse::pluto::index_type, 4096>;
using PClient = sse::pluto::PlutoClient<PDec>;
void pluto_with_stash_decoder(PDec& d, sse::crypto::Key<sse::tethys::kMasterPrfKeySize>&& k, std::array<uint8_t, PClient::kDecryptionKeySize> e)
{
    PClient c("", d, std::move(k), e);
}
} // namespace vp_inst
