#pragma once
namespace sse { namespace crypto {
class Prg {
public:
    static constexpr size_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k);
    ~Prg();
    void derive(const size_t len, unsigned char* out) const;
    void derive(const size_t offset, const size_t len, unsigned char* out) const;
    std::string derive(const size_t len) const;
private:
    void* p_;
};
} }
