#pragma once
namespace sse { namespace crypto {
void random_bytes(const size_t n, unsigned char* out);
std::string random_string(const size_t n);
template<typename T, size_t N> std::array<T, N> random_bytes();
} }
