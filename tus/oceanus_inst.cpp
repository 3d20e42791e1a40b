// instantiations of Oceanus and of the cuckoo hash table it is made of
#include <array>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <sse/crypto/prf.hpp>
#include <sse/schemes/oceanus/types.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>

namespace sse {
namespace oceanus {
template class OceanusBuilder<4096>;
template class Oceanus<4096>;
template class CuckooBuilder<4096, key_type, data_type<4096>, OceanusKeySerializer, OceanusContentSerializer<4096>, OceanusCuckooHasher>;
template class CuckooHashTable<4096, key_type, data_type<4096>, OceanusKeySerializer, OceanusContentSerializer<4096>, OceanusCuckooHasher>;
} // namespace oceanus
} // namespace sse
