#include "codec.h"
// C06: any octets. Buffers of every small size with arbitrary content, any cursor, any content length.
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
static uint64_t vb(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint32_t vb(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
enum { MAXSIZE = 12 };
struct In { XB x; unsigned size, at; };
static void in_init(In &i, unsigned cell) { i.size = cell; i.at = cell > 2 ? 1 : 0; xb_init(i.x, i.size, 2, "content"); i.x.b.data_offset = i.at; }
static void outcome(In &i, int64_t e) {
    cx_assert(e == 0 || e < 0, "a reader reports zero or a negative error"); cx_assert(i.x.b.data_offset >= i.at && i.x.b.data_offset <= i.size, "the cursor stays within the buffer"); cx_assert(i.x.b.data == i.x.mem && i.x.b.data_size == i.size, "the buffer itself is unchanged");
}
// announced content lengths: each that can fit, and all others (14 classes)
static uint64_t any_length(unsigned k) { if (k < 13) return k; uint64_t n = cx_u64("length"); cx_assume(n > 12); return n; }
// the same split of length octets at position p, short and long form (127 classes)
static void split_length(In &i, unsigned p, unsigned k) {
    if (p >= i.size) { if (k) cx_done(); return; } uint8_t b = xb(i.x, p);
    if (k < 13) { i.x.mem[p] = (char)k; return; } if (k == 13) { cx_assume(b > 12 && b < 128); return; } if (k == 14) { cx_assume(b == 128 || b > 136); return; }
    unsigned n = (k - 15) / 14 + 1, m = (k - 15) % 14; i.x.mem[p] = (char)(128 + n); if (p + 1 + n > i.size) { if (m) cx_done(); return; }
    if (m < 13) { for (unsigned j = 0; j + 1 < n; j++) i.x.mem[p + 1 + j] = 0; i.x.mem[p + n] = (char)m; return; }
    u64 v = 0; for (unsigned j = 0; j < n; j++) v = v << 8 | xb(i.x, p + 1 + j); cx_assume(v > 12);
}
// content readers: success consumes exactly the announced length
static void content(In &i, int64_t e, uint64_t len) { outcome(i, e); if (e == 0) cx_assert(len <= i.size - i.at && i.x.b.data_offset - i.at == len, "success consumes exactly the announced content"); if (len > i.size - i.at) cx_assert(e < 0, "content past the end of the buffer is refused"); }
CX_DRIVER(C06, boolean, 182) { In i; in_init(i, cell % 13); uint64_t n = any_length(cell / 13 % 14); cx_readonly(i.x.mem); bool v; content(i, crefl_asn1_ber_boolean_read(&i.x.b, n, &v), n); }
CX_DRIVER(C06, null, 182) { In i; in_init(i, cell % 13); uint64_t n = any_length(cell / 13 % 14); content(i, crefl_asn1_ber_null_read(&i.x.b, n), n); }
CX_DRIVER(C06, integer, 1456) {
    In i; in_init(i, cell % 13); uint64_t n = any_length(cell / 13 % 14); u64 u; s64 s;
    cx_readonly(i.x.mem); switch (cell / 182) {
    case 0: content(i, crefl_asn1_ber_integer_u64_read(&i.x.b, n, &u), n); break; case 1: content(i, crefl_asn1_ber_integer_u64_read_byval(&i.x.b, n).error, n); break;
    case 2: content(i, crefl_asn1_ber_integer_s64_read(&i.x.b, n, &s), n); break; case 3: content(i, crefl_asn1_ber_integer_s64_read_byval(&i.x.b, n).error, n); break;
    case 4: content(i, crefl_le_ber_integer_u64_read(&i.x.b, n, &u), n); break; case 5: content(i, crefl_le_ber_integer_u64_read_byval(&i.x.b, n).error, n); break;
    case 6: content(i, crefl_le_ber_integer_s64_read(&i.x.b, n, &s), n); break; case 7: content(i, crefl_le_ber_integer_s64_read_byval(&i.x.b, n).error, n); break;
    }
}
CX_DRIVER(C06, real, 364) { In i; in_init(i, cell % 13); uint64_t n = any_length(cell / 13 % 14); cx_readonly(i.x.mem); double d; if (cell < 182) content(i, crefl_asn1_ber_real_f64_read(&i.x.b, n, &d), n); else content(i, crefl_asn1_ber_real_f64_read_byval(&i.x.b, n).error, n); }
CX_DRIVER(C06, octets, 364) {
    In i; in_init(i, cell % 13); uint64_t n = any_length(cell / 13 % 14), room = cx_u64("room"); cx_assume(room < (1ull << 40)); asn1_string s = { room, cell < 182 ? nullptr : (u8*)cx_object(room, 0, "destination") };
    content(i, crefl_asn1_ber_octets_read(&i.x.b, n, &s), n);
}
CX_DRIVER(C06, oid, 182) { In i; in_init(i, cell % 13); cx_set("states", 300000); uint64_t n = any_length(cell / 13 % 14); asn1_oid o; int e = crefl_asn1_ber_oid_read(&i.x.b, n, &o); content(i, e, n); cx_assert(o.count <= asn1_oid_comp_max, "the component count stays within the identifier"); if (e < 0) cx_assert(o.count == 0, "a refused identifier is empty"); else for (unsigned k = 0; k < o.count; k++) cx_assert(o.oid[k] < (1ull << 56), "every counted component is defined and below 2^56"); }
CX_DRIVER(C06, header, 39) {
    In i; in_init(i, cell % 13); int e; u64 v; asn1_id id;
    if (cell < 13) { e = crefl_asn1_ber_tag_read(&i.x.b, &v); outcome(i, e); if (e == 0) cx_assert(v < (1ull << 56), "tag numbers are below 2^56"); }
    else if (cell < 26) { e = crefl_asn1_ber_ident_read(&i.x.b, &id); outcome(i, e); } else { e = crefl_asn1_ber_length_read(&i.x.b, &v); outcome(i, e); }
}
CX_DRIVER(C06, tagged_int, 6604) {
    In i; in_init(i, cell % 13); split_length(i, i.at + 1, cell / 13 % 127); cx_readonly(i.x.mem); asn1_tag t = any_tag(); u64 u; s64 s; int64_t e;
    switch (cell / 1651) { case 0: e = crefl_asn1_der_integer_u64_read(&i.x.b, t, &u); break; case 1: e = crefl_asn1_der_integer_u64_read_byval(&i.x.b, t).error; break; case 2: e = crefl_asn1_der_integer_s64_read(&i.x.b, t, &s); break; default: e = crefl_asn1_der_integer_s64_read_byval(&i.x.b, t).error; }
    outcome(i, e);
}
CX_DRIVER(C06, tagged_other, 9906) {
    In i; in_init(i, cell % 13); split_length(i, i.at + 1, cell / 13 % 127); cx_readonly(i.x.mem); asn1_tag t = any_tag(); cx_set("states", 300000); double d; bool b; asn1_oid o; int64_t e; uint64_t room = cx_u64("room"); cx_assume(room < (1ull << 40)); asn1_string s = { room, nullptr };
    switch (cell / 1651) { case 0: e = crefl_asn1_der_boolean_read(&i.x.b, t, &b); break; case 1: e = crefl_asn1_der_null_read(&i.x.b, t); break; case 2: e = crefl_asn1_der_real_f64_read(&i.x.b, t, &d); break; case 3: e = crefl_asn1_der_real_f64_read_byval(&i.x.b, t).error; break; case 4: e = crefl_asn1_der_oid_read(&i.x.b, t, &o); break; default: s.str = (u8*)cx_object(room, 0, "destination"); e = crefl_asn1_der_octets_read(&i.x.b, t, &s); }
    outcome(i, e);
}
CX_DRIVER(C06, varint, 52) {
    In i; in_init(i, cell % 13); u64 u; int64_t e;
    switch (cell / 13) { case 0: e = crefl_leb_u64_read(&i.x.b, &u); break; case 1: e = crefl_leb_u64_read_byval(&i.x.b).error; break; case 2: e = crefl_vlu_u64_read(&i.x.b, &u); break; default: e = crefl_vlu_u64_read_byval(&i.x.b).error; }
    outcome(i, e);
}
// compressed floats: one class per prefix octet and per truncation point; the octets without announced content are all constants
template <typename T, typename R> static void vf(unsigned cell, int (*rd)(crefl_buf*, T*), R (*rv)(crefl_buf*)) {
    unsigned pre = cell % 256, have = cell / 256 % 19, want = 1 + (pre & 0x80 ? (pre >> 4 & 3) + (pre & 15) : 0); if (have > want || (have == want && pre >= 128)) cx_done(); cx_set("disj", 2); // full out-of-line octets: agree
    XB x; xb_init(x, have, 2, "content"); if (have) x.mem[0] = (char)pre; cx_readonly(x.mem); T v; int e;
    if (cell / 4864) e = rd(&x.b, &v); else { R r = rv(&x.b); e = r.error == 0 ? 0 : r.error < 0 ? -1 : 1; v = r.value; }
    cx_assert(e == 0 || e < 0, "a reader reports zero or a negative error"); cx_assert(x.b.data_offset <= have, "the cursor stays within the buffer");
    if (have < want) cx_assert(e < 0, "truncated octets are refused"); else if (e == 0) cx_assert(x.b.data_offset == want, "success consumes exactly the announced octets");
    if (have == want && pre < 128) { T w; crefl_buf_reset(&x.b); R r = rv(&x.b); crefl_buf_reset(&x.b); e = rd(&x.b, &w); cx_assert(e == 0 && r.error == 0, "inline values are accepted"); cx_assert(vb(w) == vb(r.value), "both forms read the same value"); }
}
CX_DRIVER(C06, vf64, 9728) { vf<double, f64_result>(cell, crefl_vf_f64_read, crefl_vf_f64_read_byval); }
CX_DRIVER(C06, vf32, 9728) { vf<float, f32_result>(cell, crefl_vf_f32_read, crefl_vf_f32_read_byval); }
// both forms agree on any content: exponent octets arbitrary, mantissa zero or with highest bit h and lowest bit t
template <typename T, typename R> static void agree(unsigned ne, unsigned nm, int h, int t, int (*rd)(crefl_buf*, T*), R (*rv)(crefl_buf*)) {
    if (h >= (int)nm * 8 || t > h) cx_done(); cx_set("disj", 256); u64 man = h < 0 ? 0 : (1ull << h) | (1ull << t); if (h - t > 1) man |= cx_sym("mantissa", h - t - 1) << (t + 1);
    XB x; xb_init(x, 1 + ne + nm, 2, "content"); x.mem[0] = (char)(0x80 | cx_sym("sign", 1) << 6 | ne << 4 | nm); for (unsigned i = 0; i < nm && i < 8; i++) x.mem[1 + ne + i] = (char)(man >> (8 * i)); cx_readonly(x.mem);
    T v; int e = rd(&x.b, &v); uint64_t at = x.b.data_offset; cx_assert(e == 0 || e < 0, "a reader reports zero or a negative error"); cx_assert(at <= x.size, "the cursor stays within the buffer"); if (e == 0) cx_assert(at == x.size, "success consumes exactly the announced octets"); crefl_buf_reset(&x.b); R r = rv(&x.b); if (e == 0) cx_assert(r.error == 0, "both forms accept the same octets"); else cx_assert(r.error < 0, "both forms accept the same octets"); cx_assert(x.b.data_offset == at, "both forms consume the same octets"); if (e == 0) cx_assert(vb(v) == vb(r.value), "both forms read the same value");
}
template <typename T, typename R> static void agree_cell(unsigned c, bool all, int (*rd)(crefl_buf*, T*), R (*rv)(crefl_buf*)) {
    unsigned ne = c % 4, nm = c / 4 % 10, k = c / 40; int h = (int)(k / 64) - 1, t = k % 64; if (h < 0 ? t : nm == 0) cx_done(); if (nm == 9) { if (h >= 0) cx_done(); nm = 9 + (unsigned)cx_choose(0, 6); } if (!all && t != h && t != 0 && h >= 0) cx_done();
    agree<T, R>(ne, nm, h, h < 0 ? h : t, rd, rv);
}
CX_DRIVER(C06, some_agree64, 166400) { agree_cell<double, f64_result>(cell, false, crefl_vf_f64_read, crefl_vf_f64_read_byval); }
CX_DRIVER(C06, all_agree64, 166400) { agree_cell<double, f64_result>(cell, true, crefl_vf_f64_read, crefl_vf_f64_read_byval); }
CX_DRIVER(C06, some_agree32, 166400) { agree_cell<float, f32_result>(cell, false, crefl_vf_f32_read, crefl_vf_f32_read_byval); }
CX_DRIVER(C06, all_agree32, 166400) { agree_cell<float, f32_result>(cell, true, crefl_vf_f32_read, crefl_vf_f32_read_byval); }
