// One instruction-set variant of the word primitives and the wide integers, in a namespace of its
// own: the including file defines VNAME (namespace), VSTR (label) and is compiled with its flags.
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#if defined(__BMI2__) || defined(__SSE4_2__)
#include <immintrin.h>
#endif
#define sdsl VNAME
#include "sdsl/bits.hpp"
#include "sdsl/uint128_t.hpp"
#include "sdsl/uint256_t.hpp"
#include "../lib/bits.cpp"
#include "../lib/uint128_t.cpp"
#include "../lib/uint256_t.cpp"
#include "bits_api.hpp"
namespace {
using namespace VNAME;
typedef bits B;
uint256_t mk(const W4& a) { return uint256_t(a.w[0], a.w[1], (((uint128_t)a.w[3]) << 64) | (uint128_t)a.w[2]); }
W4 un(const uint256_t& x) {
    W4 r;
    uint256_t t = x;
    for (int i = 0; i < 4; ++i) { uint256_t s = i ? (t >> (64 * i)) : t; r.w[i] = (uint64_t)s; }
    return r;
}
uint128_t mk2(const W4& a) { return (((uint128_t)a.w[1]) << 64) | (uint128_t)a.w[0]; }
W4 un2(const uint128_t& x) { W4 r; r.w[0] = (uint64_t)x; r.w[1] = (uint64_t)(x >> 64); r.w[2] = r.w[3] = 0; return r; }
struct Impl : BitsApi {
    Impl() { name = VSTR; }
    uint64_t cnt(uint64_t x) { return B::cnt(x); }
    uint64_t cnt32(uint32_t x) { return B::cnt32(x); }
    uint64_t hi(uint64_t x) { return B::hi(x); }
    uint64_t lo(uint64_t x) { return B::lo(x); }
    uint64_t hi11(uint64_t x) { return B::hi11(x); }
    uint64_t cnt11(uint64_t x) { return B::cnt11(x); }
    uint64_t cnt11(uint64_t x, uint64_t& c) { return B::cnt11(x, c); }
    uint64_t cnt10(uint64_t x, uint64_t& c) { return B::cnt10(x, c); }
    uint64_t cnt01(uint64_t x, uint64_t& c) { return B::cnt01(x, c); }
    uint64_t map10(uint64_t x, uint64_t c) { return B::map10(x, c); }
    uint64_t map01(uint64_t x, uint64_t c) { return B::map01(x, c); }
    uint64_t rev(uint64_t x) { return B::rev(x); }
    uint64_t sel(uint64_t x, uint32_t i) { return B::sel(x, i); }
    uint64_t sel_(uint64_t x, uint32_t i) { return B::_sel(x, i); }
    uint64_t sel11(uint64_t x, uint32_t i, uint32_t c) { return B::sel11(x, i, c); }
    void write_int(uint64_t* w, uint64_t x, uint8_t o, uint8_t l) { B::write_int(w, x, o, l); }
    void write_int_and_move(uint64_t*& w, uint64_t x, uint8_t& o, uint8_t l) { B::write_int_and_move(w, x, o, l); }
    uint64_t read_int(const uint64_t* w, uint8_t o, uint8_t l) { return B::read_int(w, o, l); }
    uint64_t read_int_and_move(const uint64_t*& w, uint8_t& o, uint8_t l) { return B::read_int_and_move(w, o, l); }
    uint64_t read_unary(const uint64_t* w, uint8_t o) { return B::read_unary(w, o); }
    uint64_t read_unary_and_move(const uint64_t*& w, uint8_t& o) { return B::read_unary_and_move(w, o); }
    void move_right(const uint64_t*& w, uint8_t& o, uint8_t l) { B::move_right(w, o, l); }
    void move_left(const uint64_t*& w, uint8_t& o, uint8_t l) { B::move_left(w, o, l); }
    uint64_t next(const uint64_t* w, uint64_t i) { return B::next(w, i); }
    uint64_t prev(const uint64_t* w, uint64_t i) { return B::prev(w, i); }
    uint64_t table(int t, int i) {
        switch (t) {
            case 0: return B::lo_set[i];
            case 1: return B::lo_unset[i];
            case 2: return B::ps_overflow[i];
            case 3: return B::lt_cnt[i];
            case 4: return B::lt_hi[i];
            case 5: return B::lt_lo[i];
            case 6: return B::lt_sel[i];
            case 7: return B::lt_deBruijn_to_idx[i];
            case 8: return B::lt_fib[i];
            case 9: { uint64_t a = B::all_set; return a; }
        }
        return 0;
    }
    W4 bin(int op, const W4& a, const W4& b) {
        uint256_t x = mk(a), y = mk(b);
        switch (op) {
            case 0: return un(x + y);
            case 1: return un(x - y);
            case 2: return un(x | y);
            case 3: return un(x & y);
            case 4: x += y; return un(x);
            case 5: x -= y; return un(x);
            case 6: x |= y; return un(x);
            case 7: { uint256_t z(std::move(x)); x = y; y = std::move(z); return un(y); }
        }
        return a;
    }
    W4 shift(const W4& a, int s, bool left) { uint256_t x = mk(a); return left ? un(x << s) : un(x >> s); }
    std::vector<int> cmp(const W4& a, const W4& b) {
        uint256_t x = mk(a), y = mk(b);
        return {x == y, x != y, x < y, x > y, x <= y, x >= y, x > b.w[0]};
    }
    uint64_t pop(const W4& a) { return mk(a).popcount(); }
    uint64_t hiw(const W4& a) { return mk(a).hi(); }
    uint64_t selw(const W4& a, uint32_t i) { return mk(a).select(i); }
    W4 raw(const W4& a) { return un(mk(a)); }
    W4 fromword(uint64_t x) { uint256_t y(1, 2, 3); y = x; return un(y); }
    std::string str(const W4& a) { std::ostringstream o; o << mk(a); return o.str(); }
    // 128 bit
    W4 bin2(int op, const W4& a, const W4& b) {
        uint128_t x = mk2(a), y = mk2(b);
        switch (op) {
            case 0: return un2(x + y);
            case 1: return un2(x - y);
            case 2: return un2(x | y);
            case 3: return un2(x & y);
            case 4: x += y; return un2(x);
            case 5: x -= y; return un2(x);
            case 6: x |= y; return un2(x);
            case 8: return un2(~x);
            case 9: return un2(x + b.w[0]);
            case 10: x += b.w[0]; return un2(x);
            case 11: return un2(x | b.w[0]);
            case 7: { uint128_t z(std::move(x)); x = y; y = std::move(z); return un2(y); }
        }
        return a;
    }
    W4 shift2(const W4& a, int s, bool left) { uint128_t x = mk2(a); return left ? un2(x << s) : un2(x >> s); }
    std::vector<int> cmp2(const W4& a, const W4& b) {
        uint128_t x = mk2(a), y = mk2(b);
        return {x == y, x != y, x < y, x > y, x <= y, x >= y, x > b.w[0]};
    }
    std::string str2(const W4& a) { std::ostringstream o; uint128_t x = mk2(a); VNAME::operator<<(o, x); return o.str(); }
#ifdef MODE_TI
    bool cls() { return false; }
    uint64_t pop2(const W4&) { return 0; }
    uint64_t hi2(const W4&) { return 0; }
    uint64_t sel2(const W4&, uint32_t) { return 0; }
#else
    bool cls() { return true; }
    uint64_t pop2(const W4& a) { return mk2(a).popcount(); }
    uint64_t hi2(const W4& a) { return mk2(a).hi(); }
    uint64_t sel2(const W4& a, uint32_t i) { return mk2(a).select(i); }
#endif
} impl;
}
BitsApi* VCAT(api_, VNAME)() { return &impl; }
