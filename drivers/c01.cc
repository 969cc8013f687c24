#include "codec.h"
// C01: identifier and length octets.
CX_DRIVER(C01, tag_roundtrip, 57) {
    uint64_t t = cx_u64_bits("tag", cell);
    u64 n = crefl_asn1_ber_tag_length(t);
    uint64_t want = cell == 0 ? 1 : (cell + 6) / 7;
    cx_assert(n == want, "tag length is the minimal number of base-128 octets");
    XB x; xb_init(x, n, 0, "out");
    cx_assert(crefl_asn1_ber_tag_write(&x.b, t) == 0, "tag write into an exactly sized buffer succeeds");
    cx_assert(x.b.data_offset == n, "tag write emits exactly the computed length");
    for (uint64_t i = 0; i < n; i++) {
        uint8_t e = (uint8_t)((t >> (7 * (n - 1 - i))) & 0x7f) | (i + 1 < n ? 0x80 : 0);
        cx_assert(xb(x, i) == e, "tag octet holds its seven-bit group, continuation on all but the last");
    }
    crefl_buf_reset(&x.b);
    u64 r; int e = crefl_asn1_ber_tag_read(&x.b, &r);
    cx_assert(e == 0, "tag read accepts the written form");
    cx_assert(r == t, "tag read returns the written value");
    cx_assert(x.b.data_offset == n, "tag read consumes exactly the written octets");
}
CX_DRIVER(C01, length_roundtrip, 65) {
    uint64_t t = cx_u64_bits("length", cell);
    u64 n = crefl_asn1_ber_length_length(t);
    uint64_t k = (cell + 7) / 8;
    uint64_t want = cell < 8 ? 1 : 1 + k;
    cx_assert(n == want, "length-of-length is minimal");
    XB x; xb_init(x, n, 0, "out");
    cx_assert(crefl_asn1_ber_length_write(&x.b, t) == 0, "length write succeeds");
    cx_assert(x.b.data_offset == n, "length write emits exactly the computed octets");
    if (cell < 8) cx_assert(xb(x, 0) == t, "short form");
    else {
        cx_assert(xb(x, 0) == (0x80 | k), "long form prefix");
        for (uint64_t i = 0; i < k; i++) cx_assert(xb(x, 1 + i) == (uint8_t)(t >> (8 * (k - 1 - i))), "long form octet is big endian");
    }
    crefl_buf_reset(&x.b);
    u64 r; int e = crefl_asn1_ber_length_read(&x.b, &r);
    cx_assert(e == 0, "length read accepts the written form");
    cx_assert(r == t && x.b.data_offset == n, "length read returns the value and consumes exactly");
}
CX_DRIVER(C01, ident_roundtrip, 57) {
    asn1_id id; id._identifier = cx_u64_bits("tag", cell); id._constructed = cx_bool("constructed"); id._class = cx_sym("class", 2);
    u64 n = crefl_asn1_ber_ident_length(id);
    XB x; xb_init(x, n, 0, "out");
    cx_assert(crefl_asn1_ber_ident_write(&x.b, id) == 0, "identifier write succeeds");
    cx_assert(x.b.data_offset == n, "identifier write emits exactly the computed length");
    cx_assert((xb(x, 0) >> 6) == id._class, "class bits");
    crefl_buf_reset(&x.b);
    asn1_id r; memset(&r, 0, sizeof r); int e = crefl_asn1_ber_ident_read(&x.b, &r);
    cx_assert(e == 0, "identifier read accepts the written form");
    cx_assert(r._identifier == id._identifier, "identifier number survives");
    cx_assert(r._constructed == id._constructed, "constructed flag survives");
    cx_assert(r._class == id._class, "class survives");
    cx_assert(x.b.data_offset == n, "identifier read consumes exactly");
}
