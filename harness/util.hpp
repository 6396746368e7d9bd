// Helpers shared by the harnesses: exact-size guarded buffers, deterministic data, printing.
#pragma once
#include "mc.hpp"
#include <complex>
#include <type_traits>

namespace mcu
{
// A heap block of exactly n elements (so that the address sanitizer sees any overrun), optionally offset by `mis`
// elements from the allocator's alignment; the elements before the offset are canaries.
template <class T>
class Buf
{
public:
    explicit Buf(size_t n, size_t mis = 0) : n_(n), mis_(mis)
    {
        raw_ = (unsigned char*)malloc((n + mis) * sizeof(T) + (n + mis == 0));
        memset((void*)raw_, 0xA5, (n + mis) * sizeof(T));
    }
    Buf(const Buf&)            = delete;
    Buf& operator=(const Buf&) = delete;
    ~Buf() { free(raw_); }
    T* data() { return (T*)raw_ + mis_; }
    const T* data() const { return (const T*)raw_ + mis_; }
    size_t size() const { return n_; }
    T& operator[](size_t i) { return data()[i]; }
    const T& operator[](size_t i) const { return data()[i]; }
    T* begin() { return data(); }
    T* end() { return data() + n_; }
    bool canaries_ok() const
    {
        for (size_t i = 0; i < mis_ * sizeof(T); i++)
            if (raw_[i] != 0xA5)
                return false;
        return true;
    }

private:
    unsigned char* raw_;
    size_t n_, mis_;
};

// Small distinct integers, positive and negative: exact in every floating-point type used.
inline int ival(uint64_t i, uint64_t salt = 0)
{
    uint64_t h = mc::hash_mix(salt * 7919 + 13, i + 1);
    int v      = (int)(h % 19) - 9;
    return v == 0 ? 10 : v;
}
// Deterministic value in (-1,1)
inline double uval(uint64_t i, uint64_t salt = 0)
{
    uint64_t h = mc::hash_mix(salt * 104729 + 17, i + 1);
    h          = mc::hash_mix(h, 0x51ed27);
    return ((double)(h >> 11) / 9007199254740992.0) * 2 - 1;
}

template <class T>
inline uint64_t digest(const T* p, size_t n, uint64_t h = 7)
{
    return mc::hash_bytes(p, n * sizeof(T), h ^ n);
}
} // namespace mcu
