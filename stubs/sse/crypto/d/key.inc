#pragma once
#include <cstdint>
#include <cstring>
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <functional>
#include <memory>
namespace sse { namespace crypto {
template<size_t N> class Key {
public:
    static constexpr size_t kKeySize = N;
    Key();
    explicit Key(uint8_t* const k);
    Key(Key<N>&& k) noexcept;
    Key& operator=(Key<N>&& k) noexcept;
    Key(const Key<N>&) = delete;
    ~Key();
    bool is_empty() const noexcept;
    const uint8_t* unlock_get() const;
    void lock() const;
private:
    void* content_;
};
void init_crypto_lib();
void cleanup_crypto_lib();
} }
