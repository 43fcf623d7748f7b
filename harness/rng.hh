#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s(seed) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    int range( int a, int b ) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool chance( int percent ) { return below(100) < (uint64_t) percent; }
    template<typename T> const T &pick( const std::vector<T> &v ) { return v[below(v.size())]; }
};
inline uint64_t mix( uint64_t a, uint64_t b ) { Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x632BE59BD9B4E019ULL)); return r.next(); }
inline uint64_t hash_str( const std::string &s ) { uint64_t h = 0xCBF29CE484222325ULL; for (unsigned char c : s) h = (h ^ c) * 0x100000001B3ULL; return h; }
