#pragma once
namespace sse { namespace crypto {
class PrfBase { public: static constexpr size_t kKeySize = 32; };
template<size_t N> class Prf : public PrfBase {
public:
    Prf();
    explicit Prf(Key<kKeySize>&& key);
    Prf(Prf<N>&&);
    Prf(const Prf<N>&) = delete;
    ~Prf();
    std::array<uint8_t, N> prf(const unsigned char* in, const size_t length) const;
    std::array<uint8_t, N> prf(const std::string& s) const;
    template<size_t L> std::array<uint8_t, N> prf(const std::array<uint8_t, L>& in) const;
    Key<N> derive_key(const unsigned char* in, const size_t length) const;
    Key<N> derive_key(const std::string& s) const;
    template<size_t L> Key<N> derive_key(const std::array<uint8_t, L>& in) const;
private:
    Key<kKeySize> base_;
};
} }
