#include "codec.h"
// C02: integers. enc: how the value is laid out; both the by-pointer and by-value forms.
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
static unsigned octs(unsigned bits) { return bits == 0 ? 1 : (bits + 7) / 8; }
static void layout(const XB &x, unsigned at, uint64_t v, unsigned n, bool le) {
    for (unsigned i = 0; i < n; i++) cx_assert(xb(x, at + i) == (uint8_t)(v >> (8 * (le ? i : n - 1 - i))), "content octet holds its eight bits of the value");
}
CX_DRIVER(C02, u64, 65) {
    u64 v = cx_u64_bits("value", cell); unsigned n = octs(cell);
    cx_assert(crefl_asn1_ber_integer_u64_length(&v) == n && crefl_asn1_ber_integer_u64_length_byval(v) == n, "length of an unsigned integer is minimal");
    cx_assert(crefl_le_ber_integer_u64_length(&v) == n && crefl_le_ber_integer_u64_length_byval(v) == n, "length of a little-endian unsigned integer is minimal");
    for (unsigned le = 0; le < 2; le++) for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n, 0, "out"); int e;
        if (le) e = byval ? crefl_le_ber_integer_u64_write_byval(&x.b, n, v) : crefl_le_ber_integer_u64_write(&x.b, n, &v);
        else e = byval ? crefl_asn1_ber_integer_u64_write_byval(&x.b, n, v) : crefl_asn1_ber_integer_u64_write(&x.b, n, &v);
        cx_assert(e == 0 && x.b.data_offset == n, "integer write fills exactly its announced length"); layout(x, 0, v, n, le);
        for (unsigned rv = 0; rv < 2; rv++) {
            crefl_buf_reset(&x.b); u64 r = cx_u64("previous"); int e;
            if (rv) { u64_result q = le ? crefl_le_ber_integer_u64_read_byval(&x.b, n) : crefl_asn1_ber_integer_u64_read_byval(&x.b, n); e = (int)q.error; r = q.value; }
            else e = le ? crefl_le_ber_integer_u64_read(&x.b, n, &r) : crefl_asn1_ber_integer_u64_read(&x.b, n, &r);
            cx_assert(e == 0 && r == v && x.b.data_offset == n, "integer read returns the written value");
        }
    }
}
static s64 signed_class(unsigned cell) { u64 m = cx_u64_bits("magnitude", cell % 64); return (s64)(cell < 64 ? m : ~m); }
CX_DRIVER(C02, s64, 128) {
    s64 v = signed_class(cell); unsigned n = (cell % 64) / 8 + 1;
    cx_assert(crefl_asn1_ber_integer_s64_length(&v) == n && crefl_asn1_ber_integer_s64_length_byval(v) == n, "length of a signed integer is minimal two's complement");
    cx_assert(crefl_le_ber_integer_s64_length(&v) == n && crefl_le_ber_integer_s64_length_byval(v) == n, "length of a little-endian signed integer is minimal two's complement");
    for (unsigned le = 0; le < 2; le++) for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n, 0, "out"); int e;
        if (le) e = byval ? crefl_le_ber_integer_s64_write_byval(&x.b, n, v) : crefl_le_ber_integer_s64_write(&x.b, n, &v);
        else e = byval ? crefl_asn1_ber_integer_s64_write_byval(&x.b, n, v) : crefl_asn1_ber_integer_s64_write(&x.b, n, &v);
        cx_assert(e == 0 && x.b.data_offset == n, "integer write fills exactly its announced length"); layout(x, 0, (u64)v, n, le);
        for (unsigned rv = 0; rv < 2; rv++) {
            crefl_buf_reset(&x.b); s64 r = (s64)cx_u64("previous"); int e;
            if (rv) { s64_result q = le ? crefl_le_ber_integer_s64_read_byval(&x.b, n) : crefl_asn1_ber_integer_s64_read_byval(&x.b, n); e = (int)q.error; r = q.value; }
            else e = le ? crefl_le_ber_integer_s64_read(&x.b, n, &r) : crefl_asn1_ber_integer_s64_read(&x.b, n, &r);
            cx_assert(e == 0 && r == v && x.b.data_offset == n, "integer read returns the written value with its sign");
        }
    }
}
// any content octets of any supported length, minimal or not
CX_DRIVER(C02, content, 8) {
    unsigned n = cell + 1; XB x; xb_init(x, n, 2, "content");
    u64 be = 0, le = 0; for (unsigned i = 0; i < n; i++) { be |= (u64)xb(x, n - 1 - i) << (8 * i); le |= (u64)xb(x, i) << (8 * i); }
    s64 sbe = (s64)(be << (64 - 8 * n)) >> (64 - 8 * n), sle = (s64)(le << (64 - 8 * n)) >> (64 - 8 * n);
    u64 u; s64 s; u64_result ur; s64_result sr;
#define RD(call) crefl_buf_reset(&x.b); cx_assert((call) == 0 && x.b.data_offset == n, "content of one to eight octets is accepted")
    RD(crefl_asn1_ber_integer_u64_read(&x.b, n, &u)); cx_assert(u == be, "unsigned content is read most significant octet first");
    RD((ur = crefl_asn1_ber_integer_u64_read_byval(&x.b, n)).error); cx_assert(ur.value == be, "unsigned content is read most significant octet first");
    RD(crefl_asn1_ber_integer_s64_read(&x.b, n, &s)); cx_assert(s == sbe, "signed content is sign extended");
    RD((sr = crefl_asn1_ber_integer_s64_read_byval(&x.b, n)).error); cx_assert(sr.value == sbe, "signed content is sign extended");
    RD(crefl_le_ber_integer_u64_read(&x.b, n, &u)); cx_assert(u == le, "little-endian content is read least significant octet first");
    RD((ur = crefl_le_ber_integer_u64_read_byval(&x.b, n)).error); cx_assert(ur.value == le, "little-endian content is read least significant octet first");
    RD(crefl_le_ber_integer_s64_read(&x.b, n, &s)); cx_assert(s == sle, "little-endian signed content is sign extended");
    RD((sr = crefl_le_ber_integer_s64_read_byval(&x.b, n)).error); cx_assert(sr.value == sle, "little-endian signed content is sign extended");
    // writing any value at this length keeps its low-order octets
    u64 v = cx_u64("value"); s64 sv = (s64)v;
#define WR(call, isle) { XB y; xb_init(y, n, 0, "out"); cx_assert((call) == 0 && y.b.data_offset == n, "integer write accepts one to eight octets"); layout(y, 0, v, n, isle); }
    WR(crefl_asn1_ber_integer_u64_write(&y.b, n, &v), false) WR(crefl_asn1_ber_integer_u64_write_byval(&y.b, n, v), false)
    WR(crefl_asn1_ber_integer_s64_write(&y.b, n, &sv), false) WR(crefl_asn1_ber_integer_s64_write_byval(&y.b, n, sv), false)
    WR(crefl_le_ber_integer_u64_write(&y.b, n, &v), true) WR(crefl_le_ber_integer_u64_write_byval(&y.b, n, v), true)
    WR(crefl_le_ber_integer_s64_write(&y.b, n, &sv), true) WR(crefl_le_ber_integer_s64_write_byval(&y.b, n, sv), true)
}
// tagged form: header octets then content, in a buffer of exactly the required size
CX_DRIVER(C02, der_u64, 65) {
    u64 v = cx_u64_bits("value", cell); unsigned n = octs(cell); asn1_tag t = any_tag();
    for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n + 2, 0, "out");
        cx_assert((byval ? crefl_asn1_der_integer_u64_write_byval(&x.b, t, v) : crefl_asn1_der_integer_u64_write(&x.b, t, &v)) == 0 && x.b.data_offset == n + 2, "tagged integer write fills header and content");
        cx_assert(xb(x, 0) == (uint8_t)t && xb(x, 1) == n, "header holds the universal tag and the content length"); layout(x, 2, v, n, false);
        crefl_buf_reset(&x.b); u64 r; cx_assert(crefl_asn1_der_integer_u64_read(&x.b, t, &r) == 0 && r == v && x.b.data_offset == n + 2, "tagged integer read returns the written value");
        crefl_buf_reset(&x.b); u64_result q = crefl_asn1_der_integer_u64_read_byval(&x.b, t); cx_assert(q.error == 0 && q.value == v && x.b.data_offset == n + 2, "tagged integer read returns the written value");
    }
}
CX_DRIVER(C02, der_s64, 128) {
    s64 v = signed_class(cell); unsigned n = (cell % 64) / 8 + 1; asn1_tag t = any_tag();
    for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n + 2, 0, "out");
        cx_assert((byval ? crefl_asn1_der_integer_s64_write_byval(&x.b, t, v) : crefl_asn1_der_integer_s64_write(&x.b, t, &v)) == 0 && x.b.data_offset == n + 2, "tagged integer write fills header and content");
        cx_assert(xb(x, 0) == (uint8_t)t && xb(x, 1) == n, "header holds the universal tag and the content length"); layout(x, 2, (u64)v, n, false);
        crefl_buf_reset(&x.b); s64 r; cx_assert(crefl_asn1_der_integer_s64_read(&x.b, t, &r) == 0 && r == v && x.b.data_offset == n + 2, "tagged integer read returns the written value");
        crefl_buf_reset(&x.b); s64_result q = crefl_asn1_der_integer_s64_read_byval(&x.b, t); cx_assert(q.error == 0 && q.value == v && x.b.data_offset == n + 2, "tagged integer read returns the written value");
    }
}
// a length of zero or above eight is refused; nothing moves
CX_DRIVER(C02, bad_length, 8) {
    uint64_t n = cx_u64("length"); cx_assume(n == 0 || n > 8);
    XB x; xb_init(x, 64, 2, "buffer"); unsigned k = (unsigned)cx_sym("witness", 6); uint8_t before = xb(x, k);
    u64 u = cx_u64("value"); s64 s = (s64)u; bool refused = false;
    switch (cell) {
    case 0: refused = crefl_asn1_ber_integer_u64_write(&x.b, n, &u) < 0 && crefl_asn1_ber_integer_u64_write_byval(&x.b, n, u) < 0; break;
    case 1: refused = crefl_asn1_ber_integer_s64_write(&x.b, n, &s) < 0 && crefl_asn1_ber_integer_s64_write_byval(&x.b, n, s) < 0; break;
    case 2: refused = crefl_le_ber_integer_u64_write(&x.b, n, &u) < 0 && crefl_le_ber_integer_u64_write_byval(&x.b, n, u) < 0; break;
    case 3: refused = crefl_le_ber_integer_s64_write(&x.b, n, &s) < 0 && crefl_le_ber_integer_s64_write_byval(&x.b, n, s) < 0; break;
    case 4: refused = crefl_asn1_ber_integer_u64_read(&x.b, n, &u) < 0 && crefl_asn1_ber_integer_u64_read_byval(&x.b, n).error < 0; break;
    case 5: refused = crefl_asn1_ber_integer_s64_read(&x.b, n, &s) < 0 && crefl_asn1_ber_integer_s64_read_byval(&x.b, n).error < 0; break;
    case 6: refused = crefl_le_ber_integer_u64_read(&x.b, n, &u) < 0 && crefl_le_ber_integer_u64_read_byval(&x.b, n).error < 0; break;
    case 7: refused = crefl_le_ber_integer_s64_read(&x.b, n, &s) < 0 && crefl_le_ber_integer_s64_read_byval(&x.b, n).error < 0; break;
    }
    cx_assert(refused, "a content length of zero or more than eight octets is refused");
    cx_assert(x.b.data_offset == 0, "refused integer leaves the cursor"); cx_assert(xb(x, k) == before, "refused integer leaves the buffer");
}
// too little room: refused, nothing moves
CX_DRIVER(C02, short_buffer, 64) {
    unsigned n = cell / 8 + 1, have = cell % 8; if (have >= n) { cx_done(); }
    XB x; xb_init(x, have, 2, "buffer"); u64 u = cx_u64("value"); s64 s = (s64)u;
    uint8_t before[8]; for (unsigned i = 0; i < have; i++) before[i] = xb(x, i);
    cx_assert(crefl_asn1_ber_integer_u64_write(&x.b, n, &u) < 0 && crefl_asn1_ber_integer_u64_write_byval(&x.b, n, u) < 0 && crefl_asn1_ber_integer_s64_write(&x.b, n, &s) < 0 && crefl_asn1_ber_integer_s64_write_byval(&x.b, n, s) < 0, "integer write without room is refused");
    cx_assert(crefl_le_ber_integer_u64_write(&x.b, n, &u) < 0 && crefl_le_ber_integer_u64_write_byval(&x.b, n, u) < 0 && crefl_le_ber_integer_s64_write(&x.b, n, &s) < 0 && crefl_le_ber_integer_s64_write_byval(&x.b, n, s) < 0, "integer write without room is refused");
    cx_assert(crefl_asn1_ber_integer_u64_read(&x.b, n, &u) < 0 && crefl_asn1_ber_integer_u64_read_byval(&x.b, n).error < 0 && crefl_asn1_ber_integer_s64_read(&x.b, n, &s) < 0 && crefl_asn1_ber_integer_s64_read_byval(&x.b, n).error < 0, "integer read past the end is refused");
    cx_assert(crefl_le_ber_integer_u64_read(&x.b, n, &u) < 0 && crefl_le_ber_integer_u64_read_byval(&x.b, n).error < 0 && crefl_le_ber_integer_s64_read(&x.b, n, &s) < 0 && crefl_le_ber_integer_s64_read_byval(&x.b, n).error < 0, "integer read past the end is refused");
    cx_assert(x.b.data_offset == 0, "refused integer leaves the cursor");
    for (unsigned i = 0; i < have; i++) cx_assert(xb(x, i) == before[i], "refused integer leaves the buffer");
}
