#include "cx_api.h"
#include <crefl/endian.h>
#include <crefl/bits.h>
// B02: bit-scan and byte-order helpers for every operand.
CX_DRIVER(B02, scan64, 65) {
    uint64_t v = cx_u64_bits("value", cell);
    unsigned n = 64 - cell;
    cx_assert(clz_u64(v) == n, "leading zeros of a 64-bit value");
    cx_assert(clz((unsigned long)v) == n && clz((long)v) == n && clz((unsigned long long)v) == n && clz((long long)v) == n, "leading zeros select the 64-bit form");
    uint64_t w = 0; if (cell) { w = (uint64_t)1 << (cell - 1); if (cell < 64) w |= cx_sym("high", 64 - cell) << cell; }
    unsigned t = cell ? cell - 1 : 64;
    cx_assert(ctz_u64(w) == t, "trailing zeros of a 64-bit value");
    cx_assert(ctz((unsigned long)w) == t && ctz((long)w) == t && ctz((unsigned long long)w) == t && ctz((long long)w) == t, "trailing zeros select the 64-bit form");
}
CX_DRIVER(B02, scan32, 33) {
    uint32_t v = (uint32_t)cx_u64_bits("value", cell);
    cx_assert(clz_u32(v) == 32 - cell && clz((int)v) == 32 - cell && clz((unsigned)v) == 32 - cell, "leading zeros of a 32-bit value");
    uint32_t w = 0; if (cell) { w = (uint32_t)1 << (cell - 1); if (cell < 32) w |= (uint32_t)cx_sym("high", 32 - cell) << cell; }
    unsigned t = cell ? cell - 1 : 32;
    cx_assert(ctz_u32(w) == t && ctz((int)w) == t && ctz((unsigned)w) == t, "trailing zeros of a 32-bit value");
}
// population count: zero, and adding one bit at any position adds one
CX_DRIVER(B02, popcount, 2) {
    if (cell == 0) {
        uint64_t v = cx_u64("value"); uint64_t s = 0; for (unsigned i = 0; i < 64; i++) s += (v >> i) & 1;
        cx_assert(popcnt_u64(v) == s && popcnt((unsigned long)v) == s && popcnt((long)v) == s && popcnt((unsigned long long)v) == s && popcnt((long long)v) == s, "population count of a 64-bit value");
    } else {
        uint32_t v = cx_u32("value"); uint32_t s = 0; for (unsigned i = 0; i < 32; i++) s += (v >> i) & 1;
        cx_assert(popcnt_u32(v) == s && popcnt((unsigned)v) == s && popcnt((int)v) == s, "population count of a 32-bit value");
    }
}
template <typename T, typename B, typename L> static void order(B be, L le, const char *wb, const char *wl) {
    T v = (T)cx_sym("value", sizeof(T) * 8); unsigned n = sizeof(T); T b = be(v), l = le(v); uint8_t x[8], y[8]; memcpy(x, &b, n); memcpy(y, &l, n);
    for (unsigned i = 0; i < n; i++) { cx_assert(x[i] == (uint8_t)((uint64_t)v >> (8 * (n - 1 - i))), wb); cx_assert(y[i] == (uint8_t)((uint64_t)v >> (8 * i)), wl); }
    cx_assert(be(b) == v && le(l) == v, "byte order conversion is its own inverse");
}
static const char *WB = "big-endian form stores the most significant octet first", *WL = "little-endian form stores the least significant octet first";
CX_DRIVER(B02, order, 5) {
    if (cell == 0) order<uint16_t>(be16, le16, WB, WL);
    if (cell == 1) order<uint32_t>(be32, le32, WB, WL);
    if (cell == 2) order<uint64_t>(be64, le64, WB, WL);
    if (cell == 3) { uint8_t v = cx_u8("value"); cx_assert(be8(v) == v && le8(v) == v, "one octet has no order"); }
    if (cell == 4) {
        uint64_t v = cx_u64("value");
        cx_assert(htobe<unsigned short>(v) == be16(v) && htobe<short>(v) == (short)be16(v) && htobe<unsigned>(v) == be32(v) && htobe<int>(v) == (int)be32(v) && htobe<unsigned long>(v) == be64(v) && htobe<long>(v) == (long)be64(v) && htobe<unsigned long long>(v) == be64(v) && htobe<long long>(v) == (long long)be64(v), "host to big-endian selects by width");
        cx_assert(betoh<unsigned short>(v) == be16(v) && betoh<short>(v) == (short)be16(v) && betoh<unsigned>(v) == be32(v) && betoh<int>(v) == (int)be32(v) && betoh<unsigned long>(v) == be64(v) && betoh<long>(v) == (long)be64(v) && betoh<unsigned long long>(v) == be64(v) && betoh<long long>(v) == (long long)be64(v), "big-endian to host selects by width");
        cx_assert(htole<unsigned short>(v) == le16(v) && htole<short>(v) == (short)le16(v) && htole<unsigned>(v) == le32(v) && htole<int>(v) == (int)le32(v) && htole<unsigned long>(v) == le64(v) && htole<long>(v) == (long)le64(v) && htole<unsigned long long>(v) == le64(v) && htole<long long>(v) == (long long)le64(v), "host to little-endian selects by width");
        cx_assert(letoh<unsigned short>(v) == le16(v) && letoh<short>(v) == (short)le16(v) && letoh<unsigned>(v) == le32(v) && letoh<int>(v) == (int)le32(v) && letoh<unsigned long>(v) == le64(v) && letoh<long>(v) == (long)le64(v) && letoh<unsigned long long>(v) == le64(v) && letoh<long long>(v) == (long long)le64(v), "little-endian to host selects by width");
    }
}
