#ifndef BITS_API_HPP
#define BITS_API_HPP
#include <cstdint>
#include <string>
#include <vector>
struct W4 { uint64_t w[4]; };
struct BitsApi {
    std::string name;
    virtual ~BitsApi() {}
    virtual uint64_t cnt(uint64_t) = 0;
    virtual uint64_t cnt32(uint32_t) = 0;
    virtual uint64_t hi(uint64_t) = 0;
    virtual uint64_t lo(uint64_t) = 0;
    virtual uint64_t hi11(uint64_t) = 0;
    virtual uint64_t cnt11(uint64_t) = 0;
    virtual uint64_t cnt11(uint64_t, uint64_t&) = 0;
    virtual uint64_t cnt10(uint64_t, uint64_t&) = 0;
    virtual uint64_t cnt01(uint64_t, uint64_t&) = 0;
    virtual uint64_t map10(uint64_t, uint64_t) = 0;
    virtual uint64_t map01(uint64_t, uint64_t) = 0;
    virtual uint64_t rev(uint64_t) = 0;
    virtual uint64_t sel(uint64_t, uint32_t) = 0;
    virtual uint64_t sel_(uint64_t, uint32_t) = 0;
    virtual uint64_t sel11(uint64_t, uint32_t, uint32_t) = 0;
    virtual void write_int(uint64_t*, uint64_t, uint8_t, uint8_t) = 0;
    virtual void write_int_and_move(uint64_t*&, uint64_t, uint8_t&, uint8_t) = 0;
    virtual uint64_t read_int(const uint64_t*, uint8_t, uint8_t) = 0;
    virtual uint64_t read_int_and_move(const uint64_t*&, uint8_t&, uint8_t) = 0;
    virtual uint64_t read_unary(const uint64_t*, uint8_t) = 0;
    virtual uint64_t read_unary_and_move(const uint64_t*&, uint8_t&) = 0;
    virtual void move_right(const uint64_t*&, uint8_t&, uint8_t) = 0;
    virtual void move_left(const uint64_t*&, uint8_t&, uint8_t) = 0;
    virtual uint64_t next(const uint64_t*, uint64_t) = 0;
    virtual uint64_t prev(const uint64_t*, uint64_t) = 0;
    virtual uint64_t table(int, int) = 0;
    virtual W4 bin(int, const W4&, const W4&) = 0;
    virtual W4 shift(const W4&, int, bool) = 0;
    virtual std::vector<int> cmp(const W4&, const W4&) = 0;
    virtual uint64_t pop(const W4&) = 0;
    virtual uint64_t hiw(const W4&) = 0;
    virtual uint64_t selw(const W4&, uint32_t) = 0;
    virtual W4 raw(const W4&) = 0;
    virtual W4 fromword(uint64_t) = 0;
    virtual std::string str(const W4&) = 0;
    virtual W4 bin2(int, const W4&, const W4&) = 0;
    virtual W4 shift2(const W4&, int, bool) = 0;
    virtual std::vector<int> cmp2(const W4&, const W4&) = 0;
    virtual std::string str2(const W4&) = 0;
    virtual bool cls() = 0;
    virtual uint64_t pop2(const W4&) = 0;
    virtual uint64_t hi2(const W4&) = 0;
    virtual uint64_t sel2(const W4&, uint32_t) = 0;
};
#define VCAT_(a, b) a##b
#define VCAT(a, b) VCAT_(a, b)
#endif
