#include "codec.h"
// C07: headers read from any octets.
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
// reference: base-128 number, most significant group first, at most eight octets; returns octets used or 0
static unsigned number(const XB &x, unsigned at, unsigned size, u64 &v) { v = 0; for (unsigned i = 0; i < 8 && at + i < size; i++) { v = v << 7 | (xb(x, at + i) & 0x7f); if (!(xb(x, at + i) & 0x80)) return i + 1; } return 0; }
CX_DRIVER(C07, tag, 11) {
    cx_set("disj", 64); XB x; xb_init(x, cell, 2, "content"); u64 want, v = cx_u64("previous"); unsigned n = number(x, 0, cell, want); int e = crefl_asn1_ber_tag_read(&x.b, &v);
    if (n) { cx_assert(e == 0, "a terminated number of up to eight octets is accepted"); cx_assert(v == want && x.b.data_offset == n, "the number and its octets are read exactly"); }
    else { cx_assert(e < 0, "an unterminated or over-long number is refused"); cx_assert(v == 0, "a refused number is zero"); }
}
CX_DRIVER(C07, length, 11) {
    cx_set("disj", 64); XB x; xb_init(x, cell, 2, "content"); u64 want = 0, v = cx_u64("previous"); bool ok = false; unsigned n = 0;
    if (cell) { if (xb(x, 0) < 128) { ok = true; want = xb(x, 0); } else { for (unsigned k = 1; k <= 8; k++) if (xb(x, 0) == 128 + k) n = k; ok = n && n < cell; if (ok) for (unsigned i = 0; i < n; i++) want = want << 8 | xb(x, 1 + i); } }
    int e = crefl_asn1_ber_length_read(&x.b, &v);
    if (ok) { cx_assert(e == 0, "short lengths and complete long lengths of up to eight octets are accepted"); cx_assert(v == want && x.b.data_offset == n + 1, "the length and its octets are read exactly"); }
    else { cx_assert(e < 0, "indefinite, over-long and truncated lengths are refused"); cx_assert(v == 0, "a refused length is zero"); }
}
CX_DRIVER(C07, ident, 11) {
    cx_set("disj", 64); XB x; xb_init(x, cell, 2, "content"); asn1_id id; memset(&id, 0, sizeof id); u64 want = 0; unsigned n = 0; bool ok = cell > 0;
    if (ok) { want = xb(x, 0) & 0x1f; n = 1; if (want == 0x1f) { unsigned k = number(x, 1, cell, want); ok = k && want >= 0x1f; n += k; } }
    int e = crefl_asn1_ber_ident_read(&x.b, &id);
    if (ok) { cx_assert(e == 0, "complete identifiers are accepted"); cx_assert(id._identifier == want, "the tag number is read exactly"); cx_assert(id._class == xb(x, 0) >> 6 && id._constructed == (xb(x, 0) >> 5 & 1), "class and constructed flag are the top three bits"); cx_assert(x.b.data_offset == n, "the identifier octets are consumed exactly"); }
    else cx_assert(e < 0, "truncated or over-long identifiers, and long forms of low tag numbers, are refused");
}
static uint64_t vb(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
enum { KINDS = 9 };
struct Val { int64_t e; u64 v; asn1_oid o; };
static Val read(unsigned k, XB &x, bool der, asn1_tag t, uint64_t n, u8 *dst, u64 room) {
    Val r; r.v = 0; bool b = false; double d = 0; s64 s = 0; asn1_string str = { room, dst }; s64_result sr; u64_result ur; f64_result fr;
    switch (k) {
    case 0: r.e = der ? crefl_asn1_der_boolean_read(&x.b, t, &b) : crefl_asn1_ber_boolean_read(&x.b, n, &b); r.v = b; break;
    case 1: r.e = der ? crefl_asn1_der_integer_u64_read(&x.b, t, &r.v) : crefl_asn1_ber_integer_u64_read(&x.b, n, &r.v); break;
    case 2: ur = der ? crefl_asn1_der_integer_u64_read_byval(&x.b, t) : crefl_asn1_ber_integer_u64_read_byval(&x.b, n); r.e = ur.error; r.v = ur.value; break;
    case 3: r.e = der ? crefl_asn1_der_integer_s64_read(&x.b, t, &s) : crefl_asn1_ber_integer_s64_read(&x.b, n, &s); r.v = (u64)s; break;
    case 4: sr = der ? crefl_asn1_der_integer_s64_read_byval(&x.b, t) : crefl_asn1_ber_integer_s64_read_byval(&x.b, n); r.e = sr.error; r.v = (u64)sr.value; break;
    case 5: r.e = der ? crefl_asn1_der_null_read(&x.b, t) : crefl_asn1_ber_null_read(&x.b, n); break;
    case 6: r.e = der ? crefl_asn1_der_octets_read(&x.b, t, &str) : crefl_asn1_ber_octets_read(&x.b, n, &str); r.v = str.count; break;
    case 7: r.o.count = 0; r.e = der ? crefl_asn1_der_oid_read(&x.b, t, &r.o) : crefl_asn1_ber_oid_read(&x.b, n, &r.o); r.v = r.o.count; break;
    default: r.e = der ? crefl_asn1_der_real_f64_read(&x.b, t, &d) : crefl_asn1_ber_real_f64_read(&x.b, n, &d); r.v = vb(d);
    }
    return r;
}
// any first octet other than the expected universal primitive tag is refused by every tagged reader
CX_DRIVER(C07, mismatch, 10) {
    asn1_tag t = any_tag(); XB x; xb_init(x, 24, 2, "content"); cx_assume(xb(x, 0) != (uint8_t)t); u8 *d = (u8*)cx_object(4, 2, "destination"); u8 before = d[0];
    if (cell == 9) { f64_result r = crefl_asn1_der_real_f64_read_byval(&x.b, t); cx_assert(r.error < 0, "another tag, class or constructed encoding is refused"); return; }
    cx_assert(read(cell, x, true, t, 0, d, 4).e < 0, "another tag, class or constructed encoding is refused"); cx_assert(d[0] == before, "a refused header stores nothing");
}
// matching tag: the tagged reader is the content reader applied to the announced length, in any length form
CX_DRIVER(C07, delegate, 810) {
    unsigned k = cell % 9, form = cell / 9 % 9, n = cell / 81, h = 2 + form; cx_set("disj", 64); if (k >= 7) { if (n > 5) cx_done(); cx_set("disj", 512); }
    asn1_tag t = any_tag(); XB x; xb_init(x, h + n, 2, "content"); x.mem[0] = (char)t; if (!form) x.mem[1] = (char)n; else { x.mem[1] = (char)(128 + form); for (unsigned i = 0; i < form; i++) x.mem[2 + i] = i + 1 == form ? (char)n : 0; }
    u8 *d = (u8*)cx_object(4, 0, "destination"), *d2 = (u8*)cx_object(4, 0, "destination"); Val a = read(k, x, true, t, 0, d, 4); uint64_t at = x.b.data_offset; crefl_buf_reset(&x.b); crefl_buf_seek(&x.b, h); Val b = read(k, x, false, t, n, d2, 4);
    if (b.e == 0) cx_assert(a.e == 0, "content the plain reader accepts is accepted"); else { cx_assert(a.e < 0, "content the plain reader refuses is refused"); return; }
    cx_assert(a.v == b.v, "the tagged reader returns the content's value"); cx_assert(at == h + n, "header and content are consumed exactly"); if (k == 7) for (unsigned i = 0; i < b.v; i++) cx_assert(a.o.oid[i] == b.o.oid[i], "the tagged reader returns the content's value"); if (k == 6) for (unsigned i = 0; i < n && i < 4; i++) cx_assert(d[i] == d2[i], "the tagged reader returns the content's value");
}
// matching tag, content length past the end: refused
CX_DRIVER(C07, past_end, 1530) {
    unsigned k = cell % 9, have = cell / 9 % 10, j = cell / 90; if (j && j <= have) cx_done(); asn1_tag t = any_tag(); XB x; xb_init(x, 2 + have, 2, "content"); x.mem[0] = (char)t; if (j) x.mem[1] = (char)j; else { uint8_t n = xb(x, 1); cx_assume(n > 16 && n < 128); } u8 *d = (u8*)cx_object(4, 0, "destination");
    cx_assert(read(k, x, true, t, 0, d, 4).e < 0, "content past the end of the buffer is refused");
}
