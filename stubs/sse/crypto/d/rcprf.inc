#pragma once
namespace sse { namespace crypto {
struct RCPrfParams { using depth_type = uint8_t; };
template<size_t N> class ConstrainedRCPrfElement { };
template<size_t N> class ConstrainedRCPrf {
public:
    explicit ConstrainedRCPrf(std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>>&& e);
    ConstrainedRCPrf(ConstrainedRCPrf<N>&&) noexcept;
    ConstrainedRCPrf(const ConstrainedRCPrf<N>&) = delete;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf<N>&&) noexcept;
    ~ConstrainedRCPrf();
    std::array<uint8_t, N> eval(uint64_t leaf) const;
    void eval_range(uint64_t min, uint64_t max, const std::function<void(uint64_t, std::array<uint8_t, N>)>& cb) const;
    uint64_t min_leaf() const;
    uint64_t max_leaf() const;
    uint8_t tree_height() const;
private:
    void* p_;
};
template<size_t N> class RCPrf {
public:
    static constexpr size_t kKeySize = 32;
    RCPrf(Key<kKeySize>&& key, uint8_t height);
    ~RCPrf();
    std::array<uint8_t, N> eval(uint64_t leaf) const;
    ConstrainedRCPrf<N> constrain(uint64_t min, uint64_t max) const;
    uint8_t tree_height() const;
private:
    void* p_;
};
} }
