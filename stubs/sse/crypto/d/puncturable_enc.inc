#pragma once
namespace sse { namespace crypto {
namespace punct {
static constexpr size_t kTagSize = 16;
static constexpr size_t kMasterKeySize = 32;
static constexpr size_t kCiphertextSize = 352;
static constexpr size_t kKeyShareSize = 272;
using tag_type = std::array<uint8_t, kTagSize>;
using ciphertext_type = std::array<uint8_t, kCiphertextSize>;
using key_share_type = std::array<uint8_t, kKeyShareSize>;
using master_key_type = Key<kMasterKeySize>;
using punctured_key_type = std::vector<key_share_type>;
tag_type extract_tag(const ciphertext_type& ct);
tag_type extract_tag(const key_share_type& ks);
}
class PuncturableEncryption {
public:
    explicit PuncturableEncryption(punct::master_key_type&& key);
    punct::ciphertext_type encrypt(const uint64_t m, const punct::tag_type& tag);
    punct::key_share_type initial_keyshare(const size_t d);
    punct::key_share_type inc_puncture(const size_t d, const punct::tag_type& tag);
private:
    void* p_;
};
class PuncturableDecryption {
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& k);
    bool is_punctured_on_tag(const punct::tag_type& tag);
    bool decrypt(const punct::ciphertext_type& ct, uint64_t& m);
private:
    void* p_;
};
} }
