#include "codec.h"
// C04: ASN.1 real. Values are handled as IEEE 754 bit patterns.
static double mk(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
// content octets `want` of value `v`; reading yields `back`
static void check(uint64_t v, const uint8_t *want, unsigned n, bool nan) {
    double d = mk(v);
    cx_assert(crefl_asn1_ber_real_f64_length(&d) == n && crefl_asn1_ber_real_f64_length_byval(d) == n, "announced real length is the number of content octets");
    for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n, 0, "out");
        cx_assert((byval ? crefl_asn1_ber_real_f64_write_byval(&x.b, n, d) : crefl_asn1_ber_real_f64_write(&x.b, n, &d)) == 0 && x.b.data_offset == n, "real write fills exactly its announced length");
        for (unsigned i = 0; i < n; i++) cx_assert(xb(x, i) == want[i], "content octet of the real follows X.690");
        crefl_buf_reset(&x.b); double r; cx_assert(crefl_asn1_ber_real_f64_read(&x.b, n, &r) == 0 && x.b.data_offset == n, "real read accepts the written content and consumes it");
        cx_assert(nan ? (bits(r) & 0x7ff8000000000000ull) == 0x7ff8000000000000ull : bits(r) == v, "real read returns the written value exactly");
        crefl_buf_reset(&x.b); f64_result q = crefl_asn1_ber_real_f64_read_byval(&x.b, n); cx_assert(q.error == 0 && x.b.data_offset == n, "real read accepts the written content and consumes it");
        cx_assert(nan ? (bits(q.value) & 0x7ff8000000000000ull) == 0x7ff8000000000000ull : bits(q.value) == v, "real read returns the written value exactly");
    }
}
static void tagged(uint64_t v, unsigned n, bool nan) {
    double d = mk(v); asn1_tag t = any_tag();
    for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n + 2, 0, "out");
        cx_assert((byval ? crefl_asn1_der_real_f64_write_byval(&x.b, t, d) : crefl_asn1_der_real_f64_write(&x.b, t, &d)) == 0 && x.b.data_offset == n + 2 && xb(x, 0) == (uint8_t)t && xb(x, 1) == n, "tagged real has its header and announced length");
        crefl_buf_reset(&x.b); double r; cx_assert(crefl_asn1_der_real_f64_read(&x.b, t, &r) == 0 && x.b.data_offset == n + 2, "tagged real is read back");
        cx_assert(nan ? r != r : bits(r) == v, "tagged real returns the written value exactly");
        crefl_buf_reset(&x.b); f64_result q = crefl_asn1_der_real_f64_read_byval(&x.b, t); cx_assert(q.error == 0 && x.b.data_offset == n + 2, "tagged real is read back");
        cx_assert(nan ? q.value != q.value : bits(q.value) == v, "tagged real returns the written value exactly");
    }
}
// sign, N (odd, len bits), exponent e of N
static unsigned expect(uint8_t *w, uint64_t sign, uint64_t N, unsigned len, int e) {
    unsigned el = e >= -128 && e <= 127 ? 1 : 2, nl = (len + 7) / 8, n = 0;
    w[n++] = (uint8_t)(0x80 | sign << 6 | (el - 1)); if (el == 2) w[n++] = (uint8_t)(e >> 8); w[n++] = (uint8_t)e;
    for (unsigned i = nl; i-- > 0;) w[n++] = (uint8_t)(N >> (8 * i));
    return n;
}
static void normal(unsigned ex, unsigned tz, bool der) {
    uint64_t s = cx_sym("sign", 1), m = 0; if (tz < 52) { m = (uint64_t)1 << tz; if (tz < 51) m |= cx_sym("fraction", 51 - tz) << (tz + 1); }
    uint64_t v = s << 63 | (uint64_t)ex << 52 | m; uint64_t N = ((uint64_t)1 << 52 | m) >> tz; uint8_t w[12];
    unsigned n = expect(w, s, N, 53 - tz, (int)ex - 1023 - 52 + (int)tz); check(v, w, n, false); if (der) tagged(v, n, false);
}
// quick tier: exponents within 192 of one, and every eighth of the others (1- and 2-octet exponents change at -128 and 127)
CX_DRIVER(C04, some_finite, 33920) { unsigned i = cell / 53, ex = i < 384 ? 831 + i : (i - 384) * 8 + 1; normal(ex, cell % 53, cell % 7 == 0); }
CX_DRIVER(C04, all_finite, 108438) { normal(cell / 53 + 1, cell % 53, cell % 7 == 0); }
CX_DRIVER(C04, subnormal, 2704) {
    unsigned tz = cell / 52, hi = cell % 52; if (hi < tz) cx_done();
    uint64_t s = cx_sym("sign", 1), m = (uint64_t)1 << tz | (uint64_t)1 << hi; if (hi > tz + 1) m |= cx_sym("fraction", hi - tz - 1) << (tz + 1);
    uint64_t v = s << 63 | m; uint8_t w[12]; unsigned n = expect(w, s, m >> tz, hi - tz + 1, -1074 + (int)tz); check(v, w, n, false); tagged(v, n, false);
}
CX_DRIVER(C04, special, 5) {
    uint64_t v = 0; uint8_t w[12] = {0x80, 0, 0}; unsigned n = 1; bool nan = false;
    switch (cell) {
    case 0: v = 0; n = 3; { double d = mk(v); XB x; unsigned l = (unsigned)crefl_asn1_ber_real_f64_length_byval(d); cx_assert(l == crefl_asn1_ber_real_f64_length(&d), "both length forms agree");
        for (int byval = 0; byval < 2; byval++) { xb_init(x, l, 0, "out"); cx_assert((byval ? crefl_asn1_ber_real_f64_write_byval(&x.b, l, d) : crefl_asn1_ber_real_f64_write(&x.b, l, &d)) == 0 && x.b.data_offset == l, "zero is written"); crefl_buf_reset(&x.b); double r; if (l) { cx_assert(crefl_asn1_ber_real_f64_read(&x.b, l, &r) == 0 && bits(r) == 0 && x.b.data_offset == l, "zero is read back"); crefl_buf_reset(&x.b); f64_result q = crefl_asn1_ber_real_f64_read_byval(&x.b, l); cx_assert(q.error == 0 && bits(q.value) == 0, "zero is read back"); } }
        tagged(0, l, false); } return;
    case 1: v = (uint64_t)1 << 63; w[0] = 0x43; break;
    case 2: v = (uint64_t)0x7ff << 52; w[0] = 0x40; break;
    case 3: v = (uint64_t)0xfff << 52; w[0] = 0x41; break;
    case 4: { cx_set("disj", 64); uint64_t m = cx_sym("payload", 52); cx_assume(m != 0); v = cx_sym("sign", 1) << 63 | (uint64_t)0x7ff << 52 | m; w[0] = 0x42; nan = true; } break;
    }
    check(v, w, n, nan); tagged(v, n, nan);
}
// any content: both read forms agree, and nothing outside the buffer is touched
// classes: content length, exponent form, leading one of the mantissa
static void any(unsigned cell);
CX_DRIVER(C04, any, 1716) { any(cell); }
static void any(unsigned k) {
    unsigned cell = k / 132, el = 1 + k / 66 % 2, lead = k % 66; cx_set("disj", 64);
    XB x; xb_init(x, cell, 2, "content"); int fl = (int)cell - 1 - (int)el;
    if (lead == 65) { if (el == 2) cx_done(); if (cell) cx_assume((xb(x, 0) & 0x80) == 0 || (xb(x, 0) & 2) != 0); }
    else if (cell == 0) cx_done();
    else {
        x.mem[0] = (char)(0x80 | cx_sym("sign", 1) << 6 | cx_sym("base and scale", 4) << 2 | (el - 1));
        if (fl < 1 || fl > 8) { if (lead) cx_done(); }
        else {
            if (lead < 64 && lead >= 8 * (unsigned)fl) cx_done();
            unsigned z = lead == 64 ? 8 * fl : lead;
            for (unsigned i = 0; i < (unsigned)fl; i++) { uint8_t o = xb(x, 1 + el + i); for (unsigned j = 0; j < 8; j++) if (8 * i + j < z) o &= ~(0x80 >> j); else if (8 * i + j == z) o |= 0x80 >> j; x.mem[1 + el + i] = (char)o; }
        }
    }
    double r = 0; int e = crefl_asn1_ber_real_f64_read(&x.b, cell, &r); uint64_t at = x.b.data_offset;
    crefl_buf_reset(&x.b); f64_result q = crefl_asn1_ber_real_f64_read_byval(&x.b, cell);
    if (e == 0) cx_assert(q.error == 0, "both forms accept the same content"); else cx_assert(e < 0 && q.error < 0, "both forms accept the same content");
    if (e == 0) { cx_assert(bits(r) == bits(q.value), "both forms decode the same value"); cx_assert(at == cell && x.b.data_offset == cell, "accepted content is consumed exactly"); }
    // what is not supported or not a real is refused
    if (cell < 1) { cx_assert(e < 0, "empty content is refused"); return; }
    uint8_t b = xb(x, 0);
    if ((b & 0xc0) == 0) cx_assert(e < 0, "decimal reals are refused");
    else if ((b & 0xc0) == 0x40) { if (cell == 1 && b <= 0x43) cx_assert(e == 0, "special reals are single octets 0x40 to 0x43"); else cx_assert(e < 0, "special reals are single octets 0x40 to 0x43"); }
    else if (b & 0x3e) cx_assert(e < 0, "other bases, scale factors and exponent forms are refused");
    else { unsigned el = 1 + (b & 1); if (cell < 1 + el + 1 || cell > 1 + el + 8) cx_assert(e < 0, "a real without mantissa or with more than eight mantissa octets is refused"); }
}
