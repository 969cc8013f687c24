#include "codec.h"
// C09: boolean, null and octet strings.
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
CX_DRIVER(C09, boolean, 2) {
    bool v = cell & 1, o; XB x; cx_assert(crefl_asn1_ber_boolean_length(&v) == 1, "a boolean is one octet");
    xb_init(x, 1, 0, "out"); cx_assert(crefl_asn1_ber_boolean_write(&x.b, 1, &v) == 0 && x.b.data_offset == 1, "boolean write fills its octet"); cx_assert((xb(x, 0) != 0) == v, "false is written as zero, true as non-zero");
    crefl_buf_reset(&x.b); cx_assert(crefl_asn1_ber_boolean_read(&x.b, 1, &o) == 0 && o == v && x.b.data_offset == 1, "boolean read returns the written value");
    XB y; asn1_tag t = any_tag(); xb_init(y, 3, 0, "out"); cx_assert(crefl_asn1_der_boolean_write(&y.b, t, &v) == 0 && y.b.data_offset == 3, "tagged boolean write has header and one octet");
    cx_assert(xb(y, 0) == (uint8_t)t && xb(y, 1) == 1 && (xb(y, 2) != 0) == v, "header of a boolean holds the tag and length one");
    crefl_buf_reset(&y.b); cx_assert(crefl_asn1_der_boolean_read(&y.b, t, &o) == 0 && o == v && y.b.data_offset == 3, "tagged boolean read returns the written value");
    XB z; xb_init(z, 0, 0, "full"); cx_assert(crefl_asn1_ber_boolean_write(&z.b, 1, &v) < 0 && z.b.data_offset == 0, "boolean without room is refused");
}
CX_DRIVER(C09, boolean_content, 1) {
    XB x; xb_init(x, 4, 2, "content"); bool o = true; uint64_t n = cx_u64("length"); int e = crefl_asn1_ber_boolean_read(&x.b, n, &o);
    if (n == 1) { cx_assert(e == 0 && o == (xb(x, 0) != 0) && x.b.data_offset == 1, "any non-zero content octet is true"); }
    else cx_assert(e < 0 && x.b.data_offset == 0, "boolean content of any other length is refused");
    XB y; xb_init(y, 0, 0, "empty"); cx_assert(crefl_asn1_ber_boolean_read(&y.b, 1, &o) < 0, "missing boolean content is refused");
}
CX_DRIVER(C09, null, 1) {
    uint64_t n = cx_u64("length"); XB x; xb_init(x, 4, 2, "content"); cx_assert(crefl_asn1_ber_null_length() == 0, "null is empty");
    cx_assert((crefl_asn1_ber_null_read(&x.b, n) == 0) == (n == 0), "null content is empty"); cx_assert((crefl_asn1_ber_null_write(&x.b, n) == 0) == (n == 0), "null content is empty"); cx_assert(x.b.data_offset == 0, "null moves nothing");
    asn1_tag t = any_tag(); XB y; xb_init(y, 2, 0, "out"); cx_assert(crefl_asn1_der_null_write(&y.b, t) == 0 && y.b.data_offset == 2 && xb(y, 0) == (uint8_t)t && xb(y, 1) == 0, "tagged null is a header with length zero");
    crefl_buf_reset(&y.b); cx_assert(crefl_asn1_der_null_read(&y.b, t) == 0 && y.b.data_offset == 2, "tagged null is read back");
}
// any string length below 2^40, buffer of exactly the announced size
CX_DRIVER(C09, octets, 1) {
    uint64_t n = cx_u64("string length"); cx_assume(n < (1ull << 40)); asn1_string s = { n, (u8*)cx_object(n, 2, "string") };
    cx_assert(crefl_asn1_ber_octets_length(&s) == n, "announced length is the string length");
    XB x; xb_init(x, n, 0, "out"); cx_assert(crefl_asn1_ber_octets_write(&x.b, n, &s) == 0 && x.b.data_offset == n, "octets write fills exactly its announced length");
    uint64_t k = cx_u64("witness"); if (k < n) cx_assert(xb(x, k) == s.str[k], "octets are copied in order");
    u8 *d = (u8*)cx_object(n, 0, "destination"); asn1_string r = { n, d }; crefl_buf_reset(&x.b);
    cx_assert(crefl_asn1_ber_octets_read(&x.b, n, &r) == 0 && x.b.data_offset == n && r.count == n, "octets read consumes and reports the length"); if (k < n) cx_assert(d[k] == s.str[k], "octets are read in order");
}
// tagged: one class per size of the length encoding
CX_DRIVER(C09, octets_tagged, 41) {
    uint64_t n = cx_u64_bits("string length", cell), h = n < 128 ? 2 : 2 + (cell + 7) / 8; asn1_string s = { n, (u8*)cx_object(n, 2, "string") }; asn1_tag t = any_tag();
    XB x; xb_init(x, n + h, 0, "out"); cx_assert(crefl_asn1_der_octets_write(&x.b, t, &s) == 0 && x.b.data_offset == n + h, "tagged octets write fills header and announced length");
    cx_assert(xb(x, 0) == (uint8_t)t, "header holds the tag"); uint64_t k = cx_u64("witness"); if (k < n) cx_assert(xb(x, h + k) == s.str[k], "octets follow the header");
    u8 *d = (u8*)cx_object(n, 0, "destination"); asn1_string r = { n, d }; crefl_buf_reset(&x.b);
    cx_assert(crefl_asn1_der_octets_read(&x.b, t, &r) == 0 && x.b.data_offset == n + h && r.count == n, "tagged octets read consumes and reports the length"); if (k < n) cx_assert(d[k] == s.str[k], "octets are read in order");
}
// any destination size, including none: only min(length, room) octets are stored, the full length is reported
CX_DRIVER(C09, octets_room, 2) {
    uint64_t size = cx_u64("buffer size"), at = cx_u64("cursor"), n = cx_u64("content length"), room = cx_u64("room");
    cx_assume(size < (1ull << 40) && at <= size && room < (1ull << 40)); XB x; xb_init(x, size, 2, "content"); x.b.data_offset = at;
    u8 *d = cell ? (u8*)cx_object(room, 2, "destination") : nullptr; asn1_string r = { room, d }; uint64_t k = cx_u64("witness"); bool in = k < room; u8 before = d && in ? d[k] : 0;
    int e = crefl_asn1_ber_octets_read(&x.b, n, &r);
    if (n > size - at) { cx_assert(e < 0, "content past the end of the buffer is refused"); cx_assert(x.b.data_offset == at && r.count == room, "refused octets leave cursor and count"); if (d && in) cx_assert(d[k] == before, "refused octets leave the destination"); return; }
    cx_assert(e == 0 && x.b.data_offset == at + n && r.count == n, "the content is consumed and its full length reported");
    if (d && in) { if (k < n) cx_assert(d[k] == xb(x, at + k), "octets that fit are stored in order"); else cx_assert(d[k] == before, "octets after the content are left alone"); }
}
CX_DRIVER(C09, octets_write_room, 1) {
    uint64_t size = cx_u64("buffer size"), at = cx_u64("cursor"), n = cx_u64("string length"), k = cx_u64("witness"); cx_assume(size < (1ull << 40) && at <= size && n < (1ull << 40)); bool in = k < size;
    asn1_string s = { n, (u8*)cx_object(n, 2, "string") }; XB x; xb_init(x, size, 2, "buffer"); x.b.data_offset = at; uint8_t before = in ? xb(x, k) : 0;
    int e = crefl_asn1_ber_octets_write(&x.b, n, &s);
    if (n > size - at) { cx_assert(e < 0 && x.b.data_offset == at, "string without room is refused"); if (in) cx_assert(xb(x, k) == before, "refused string leaves the buffer"); return; }
    cx_assert(e == 0 && x.b.data_offset == at + n, "string with room is written"); if (!in) return; if (k < at || k >= at + n) cx_assert(xb(x, k) == before, "octets outside the string are left alone"); else cx_assert(xb(x, k) == s.str[k - at], "octets are copied in order");
}
