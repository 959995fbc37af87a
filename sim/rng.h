// Seeded PRNG used for every random choice of the simulation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t &x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1, uint64_t stream = 0) { reseed(seed, stream); }
    void reseed(uint64_t seed, uint64_t stream = 0)
    {
        uint64_t x = seed * 0x2545F4914F6CDD1DULL + stream * 0x9E3779B97F4A7C15ULL + 77;
        s[0]       = mix(x);
        s[1]       = mix(x);
    }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t  range(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool     chance(unsigned num, unsigned den) { return below(den) < num; }
    bool     pct(unsigned p) { return below(100) < p; }
    template <class C> auto &pick(C &c) { return c[below(c.size())]; }
};
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    return h;
}
