// Value disguise shared with drivers/enc.py.  An abstract value is a small int:
//   0      the fill value
//   1..4   position dependent: a different concrete value at every coordinate, so that a value
//          that ends up at the wrong place does not decode to a valid abstract value
//   5..7   constants (extreme values of the type): usable in scalar writes
// decode() returns -1 for a concrete value that is none of these at this coordinate.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <vector>

namespace enc {
typedef std::vector<std::size_t> Coord;

inline uint64_t hashCoord(const std::size_t * c, std::size_t n) {
    static const uint64_t K[8] = {0x9E3779B97F4A7C15ULL, 0xC2B2AE3D27D4EB4FULL, 0x165667B19E3779F9ULL,
                                  0xD6E8FEB86659FD93ULL, 0xA0761D6478BD642FULL, 0xE7037ED1A0B428DBULL,
                                  0x8EBC6AF09C88C6E3ULL, 0x589965CC75374CC3ULL};
    uint64_t h = 0x27D4EB2F165667C5ULL;
    for(std::size_t d = 0; d < n; ++d) h += (uint64_t(c[d]) + 1) * K[d];
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
    return h;
}

template<class T> struct is_complex : std::false_type {};
template<class U> struct is_complex<std::complex<U>> : std::true_type {};

template<class T> inline bool same(const T a, const T b) {
    if constexpr(is_complex<T>::value) return same(a.real(), b.real()) && same(a.imag(), b.imag());
    else if constexpr(std::is_floating_point<T>::value) return (std::isnan(a) && std::isnan(b)) || a == b;
    else return a == b;
}

template<class T>
struct Codec {
    T fill;
    T c[3];                       // constants for 5, 6, 7
    uint64_t ex[4]; int nex = 0;  // excluded bit patterns (integers), sorted

    explicit Codec(double f) {
        if constexpr(is_complex<T>::value) {
            typedef typename T::value_type U;
            fill = T(static_cast<U>(f));
            c[0] = T(std::numeric_limits<U>::max(), U(-1));
            c[1] = T(U(0), -std::numeric_limits<U>::infinity());
            c[2] = T(std::numeric_limits<U>::quiet_NaN(), U(2));
        } else if constexpr(std::is_floating_point<T>::value) {
            fill = static_cast<T>(f);
            // (the neighbour of the fill value for some fill values: see nearFill in enc.py)
            const bool near = std::isfinite(f) && f != 0 && f != -42;
            const T cand[6] = {near ? std::nextafter(fill, std::numeric_limits<T>::infinity()) : std::numeric_limits<T>::max(),
                               -std::numeric_limits<T>::infinity(),
                               std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(),
                               T(2), T(-4)};
            int k = 0;
            for(int i = 0; i < 6 && k < 3; ++i) if(!same(cand[i], fill)) c[k++] = cand[i];
        } else {
            typedef typename std::make_unsigned<T>::type U;
            const T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
            fill = f >= std::ldexp(1., std::numeric_limits<T>::digits) ? mx : static_cast<T>(f);
            const T cand[7] = {mx, mn, static_cast<T>(fill == mx ? fill - 1 : fill + 1), static_cast<T>(mx - 1), T(1), T(2), T(0)};
            int k = 0;
            for(int i = 0; i < 7 && k < 3; ++i) {
                if(cand[i] != fill && std::find(c, c + k, cand[i]) == c + k) c[k++] = cand[i];
            }
            ex[nex++] = U(fill);
            for(int i = 0; i < 3; ++i) ex[nex++] = U(c[i]);
            for(int i = 0; i < 4; ++i) for(int j = i + 1; j < 4; ++j) if(ex[j] < ex[i]) std::swap(ex[i], ex[j]);
        }
    }

    template<class F> static F fl(uint64_t h, int v) {
        const uint64_t n = ((h >> 3) & 0x3FFFFULL) * 16 + v;
        const F x = static_cast<F>(2 * n + 1) / F(128);
        return ((h >> 40) & 1) ? -x : x;
    }

    T encode(int v, const std::size_t * pos, std::size_t n) const {
        if(v == 0) return fill;
        if(v >= 5) return c[v - 5];
        const uint64_t h = hashCoord(pos, n);
        if constexpr(is_complex<T>::value) {
            typedef typename T::value_type U;
            return T(fl<U>(h, v), fl<U>(h * 0x2545F4914F6CDD1DULL, v));
        } else if constexpr(std::is_floating_point<T>::value) {
            return fl<T>(h, v);
        } else {
            typedef typename std::make_unsigned<T>::type U;
            const uint64_t m = std::numeric_limits<U>::max();          // 2^W - 1
            const uint64_t dom = m - 3;                                // 2^W - 4 patterns
            const uint64_t r0 = h % dom, add = uint64_t(v) * 29;       // add < dom
            uint64_t r = (r0 >= dom - add) ? r0 - (dom - add) : r0 + add;
            for(int i = 0; i < 4; ++i) if(r >= ex[i]) ++r;             // skip excluded (sorted)
            return static_cast<T>(static_cast<U>(r));
        }
    }

    int decode(const T x, const std::size_t * pos, std::size_t n) const {
        if(same(x, fill)) return 0;
        for(int v = 5; v < 8; ++v) if(same(x, c[v - 5])) return v;
        for(int v = 1; v < 5; ++v) if(same(x, encode(v, pos, n))) return v;
        return -1;
    }
};
}
