#include "cx_api.h"
#include <crefl/sha256.h>
// S01: SHA-224/256 against FIPS 180-4, for any message content.
static uint32_t rotr(uint32_t x, unsigned n) { return x >> n | x << (32 - n); }
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static void compress(uint32_t *h, const uint8_t *m) {
    uint32_t w[64], s[8]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)m[4 * t] << 24 | (uint32_t)m[4 * t + 1] << 16 | (uint32_t)m[4 * t + 2] << 8 | m[4 * t + 3];
    for (int t = 16; t < 64; t++) w[t] = (rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ w[t - 2] >> 10) + w[t - 7] + (rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ w[t - 15] >> 3) + w[t - 16];
    for (int i = 0; i < 8; i++) s[i] = h[i];
    for (int t = 0; t < 64; t++) {
        uint32_t a = s[0], b = s[1], c = s[2], e = s[4], f = s[5], g = s[6];
        uint32_t t1 = s[7] + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K[t] + w[t], t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        for (int i = 7; i > 0; i--) s[i] = s[i - 1]; s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
// one block from any chaining value
CX_DRIVER(S01, block, 1) {
    sha256_ctx c; sha256_init(&c); uint32_t h[8]; for (int i = 0; i < 8; i++) h[i] = c.chain[i] = cx_u32("chain"); uint8_t *m = (uint8_t*)cx_object(64, 2, "message");
    sha256_update(&c, m, 64); compress(h, m); for (int i = 0; i < 8; i++) cx_assert(c.chain[i] == h[i], "compression of any block from any state follows FIPS 180-4");
}
static const uint32_t I256[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 }, I224[8] = { 0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4 };
static void digest(const uint32_t *h, const uint8_t *r, unsigned n) { for (unsigned i = 0; i < n; i++) cx_assert(r[i] == (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4))), "the digest is the final state, most significant octet first"); }
// a running hash in an arbitrary state: `fill` octets pending after any number of whole blocks
static uint64_t running(sha256_ctx &c, unsigned fill, uint32_t *h, uint8_t *blk, bool wide) {
    if (wide) sha256_init(&c); else sha224_init(&c); uint64_t n = (cx_sym("blocks", 50) << 6) | fill; c.nbytes = n; for (int i = 0; i < 8; i++) h[i] = c.chain[i] = cx_u32("chain"); for (unsigned i = 0; i < fill; i++) blk[i] = c.block[i] = cx_u8("pending"); return n;
}
// absorbing any content: whole blocks are compressed in order, the rest is pending
static void absorb(unsigned fill, unsigned len) {
    sha256_ctx c; uint32_t h[8]; uint8_t blk[64]; uint64_t n = running(c, fill, h, blk, true); uint8_t *m = (uint8_t*)cx_object(len, 2, "message"); cx_readonly(m); sha256_update(&c, m, len);
    unsigned f = fill; for (unsigned i = 0; i < len; i++) { blk[f++] = m[i]; if (f == 64) { compress(h, blk); f = 0; } }
    for (int i = 0; i < 8; i++) cx_assert(c.chain[i] == h[i], "each completed block is compressed once, in order"); for (unsigned i = 0; i < f; i++) cx_assert(c.block[i] == blk[i], "the remaining octets are pending in order"); cx_assert(c.nbytes == n + len, "the message length is counted");
}
static unsigned pick(unsigned fill, unsigned k) { switch (k) { case 0: return 0; case 1: return 1; case 2: return 63 - fill; case 3: return 64 - fill; case 4: return 65 - fill; case 5: return 128 - fill; default: return 129 - fill; } }
CX_DRIVER(S01, some_absorb, 70) { static const unsigned F[10] = { 0, 1, 7, 31, 32, 55, 56, 57, 62, 63 }; absorb(F[cell % 10], pick(F[cell % 10], cell / 10)); }
CX_DRIVER(S01, all_absorb, 448) { absorb(cell % 64, pick(cell % 64, cell / 64)); }
// finishing: one bit, zeros, and the 64-bit big-endian bit count, in one or two blocks
CX_DRIVER(S01, finish, 128) {
    bool wide = cell & 1; unsigned fill = cell / 2; sha256_ctx c; uint32_t h[8]; uint8_t blk[64]; uint64_t n = running(c, fill, h, blk, wide); blk[fill] = 0x80; for (unsigned i = fill + 1; i < 64; i++) blk[i] = 0;
    if (fill >= 56) { compress(h, blk); for (unsigned i = 0; i < 64; i++) blk[i] = 0; } for (unsigned i = 0; i < 8; i++) blk[56 + i] = (uint8_t)((n << 3) >> (56 - 8 * i)); compress(h, blk);
    uint8_t *r = (uint8_t*)cx_object(wide ? 32 : 28, 0, "digest"); sha256_final(&c, r); digest(h, r, wide ? 32 : 28);
}
// whole messages from initialisation
CX_DRIVER(S01, message, 12) {
    static const unsigned L[6] = { 0, 3, 55, 56, 64, 70 }; bool wide = cell & 1; unsigned n = L[cell / 2]; sha256_ctx c; uint32_t h[8]; uint8_t p[128]; if (wide) sha256_init(&c); else sha224_init(&c); for (int i = 0; i < 8; i++) h[i] = (wide ? I256 : I224)[i];
    uint8_t *m = (uint8_t*)cx_object(n, 2, "message"); unsigned k = n > 55 ? 128 : 64; for (unsigned i = 0; i < k; i++) p[i] = i < n ? m[i] : i == n ? 0x80 : i < k - 2 ? 0 : (uint8_t)(n * 8 >> (8 * (k - 1 - i)));
    for (unsigned i = 0; i < k; i += 64) compress(h, p + i); if (n > 1) { sha256_update(&c, m, n / 2); sha256_update(&c, m + n / 2, n - n / 2); } else sha256_update(&c, m, n);
    uint8_t *r = (uint8_t*)cx_object(wide ? 32 : 28, 0, "digest"); if (wide) sha256_final(&c, r); else sha224_final(&c, r); digest(h, r, wide ? 32 : 28);
}
