#include "lib/pluto/rocksdb_store.cpp"
template void sse::pluto::GenericRocksDBStore::insert<5>(const sse::tethys::tethys_core_key_type&, const std::array<sse::pluto::index_type, 5>&);
template std::array<sse::pluto::index_type, 5> sse::pluto::GenericRocksDBStore::get<5>(const sse::tethys::tethys_core_key_type&);
