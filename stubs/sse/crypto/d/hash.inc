#pragma once
namespace sse { namespace crypto {
class Hash {
public:
    static constexpr size_t kDigestSize = 64;
    static constexpr size_t kBlockSize = 128;
    static void hash(const unsigned char* in, const size_t len, unsigned char* digest);
    static void hash(const unsigned char* in, const size_t len, const size_t out_len, unsigned char* digest);
    static void hash(const std::string& in, std::string& out);
    static void hash(const std::string& in, const size_t out_len, std::string& out);
    static std::string hash(const std::string& in);
    static std::string hash(const std::string& in, const size_t out_len);
};
} }
