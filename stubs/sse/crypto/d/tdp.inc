#pragma once
namespace sse { namespace crypto {
class Tdp {
public:
    static constexpr size_t kMessageSize = 256;
    static constexpr size_t kRSAPrfSize = 264;
    explicit Tdp(const std::string& pk);
    Tdp(const Tdp& t);
    virtual ~Tdp();
    std::string public_key() const;
    std::array<uint8_t, kMessageSize> sample_array() const;
    std::string generate(const Prf<kRSAPrfSize>& prg, const std::string& seed) const;
    std::array<uint8_t, kMessageSize> generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const;
    void eval(const std::string& in, std::string& out) const;
    std::string eval(const std::string& in) const;
    std::array<uint8_t, kMessageSize> eval(const std::array<uint8_t, kMessageSize>& in) const;
private:
    void* imp_;
};
class TdpInverse : public Tdp {
public:
    TdpInverse();
    explicit TdpInverse(const std::string& sk);
    std::string private_key() const;
    std::array<uint8_t, kMessageSize> invert(const std::array<uint8_t, kMessageSize>& in) const;
    std::array<uint8_t, kMessageSize> invert_mult(const std::array<uint8_t, kMessageSize>& in, uint32_t order) const;
};
class TdpMultPool : public Tdp {
public:
    TdpMultPool(const std::string& pk, const uint8_t size);
    std::array<uint8_t, kMessageSize> eval_pool(const std::array<uint8_t, kMessageSize>& in, const uint8_t order) const;
    std::array<uint8_t, kMessageSize> eval(const std::array<uint8_t, kMessageSize>& in, const uint8_t order) const;
    std::array<uint8_t, kMessageSize> eval(const std::array<uint8_t, kMessageSize>& in) const;
    uint8_t maximum_order() const;
    uint8_t pool_size() const;
};
} }
