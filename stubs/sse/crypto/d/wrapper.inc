#pragma once
namespace sse { namespace crypto {
class Wrapper {
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& k);
    Wrapper(Wrapper&&);
    ~Wrapper();
    template<class T> std::vector<uint8_t> wrap(const T& obj) const;
    template<class T> T unwrap(const std::vector<uint8_t>& buf) const;
private:
    void* p_;
};
} }
