#include "codec.h"
// C08: object identifiers, binary and text.
static asn1_tag any_tag() { uint64_t t = cx_sym("tag", 5); cx_assume(t != 31); return (asn1_tag)t; }
static unsigned groups(unsigned bits) { return bits == 0 ? 1 : (bits + 6) / 7; }
static void group_octets(const XB &x, unsigned at, u64 v, unsigned n) { for (unsigned i = 0; i < n; i++) cx_assert(xb(x, at + i) == (((v >> (7 * (n - 1 - i))) & 0x7f) | (i + 1 < n ? 0x80 : 0)), "subidentifier holds seven-bit groups, most significant first"); }
static bool same(const asn1_oid &a, const asn1_oid &b) { if (a.count != b.count) return false; for (unsigned i = 0; i < a.count; i++) if (a.oid[i] != b.oid[i]) return false; return true; }
static void check_same(const asn1_oid &a, const asn1_oid &b) { cx_assert(a.count == b.count, "the component count is read back"); for (unsigned i = 0; i < a.count; i++) cx_assert(a.oid[i] == b.oid[i], "each component is read back"); }
static void binary(const asn1_oid &o, const u64 *sub, const unsigned *n, unsigned k) {
    unsigned len = 0; for (unsigned i = 0; i < k; i++) len += n[i];
    cx_assert(crefl_asn1_ber_oid_length(&o) == len, "announced length is the sum of minimal subidentifiers");
    XB x; xb_init(x, len, 0, "out"); cx_assert(crefl_asn1_ber_oid_write(&x.b, len, &o) == 0 && x.b.data_offset == len, "object identifier write fills exactly its announced length");
    for (unsigned i = 0, at = 0; i < k; at += n[i++]) group_octets(x, at, sub[i], n[i]);
    asn1_oid r; crefl_buf_reset(&x.b); cx_assert(crefl_asn1_ber_oid_read(&x.b, len, &r) == 0 && x.b.data_offset == len, "the written octets are accepted and consumed exactly"); check_same(o, r);
    if (len < 128) {
        asn1_tag t = any_tag(); XB y; xb_init(y, len + 2, 0, "out"); cx_assert(crefl_asn1_der_oid_write(&y.b, t, &o) == 0 && y.b.data_offset == len + 2 && xb(y, 0) == (uint8_t)t && xb(y, 1) == len, "tagged object identifier has its header and announced length");
        crefl_buf_reset(&y.b); cx_assert(crefl_asn1_der_oid_read(&y.b, t, &r) == 0 && y.b.data_offset == len + 2, "tagged object identifier is read back"); check_same(o, r);
    }
}
// first two components: X*40+Y of every bit length, X of each kind
static u64 first(asn1_oid &o, unsigned x, unsigned bits) {
    u64 c = cx_u64_bits("first subidentifier", bits); if (x == 0) cx_assume(c < 40); else if (x == 1) cx_assume(c >= 40 && c < 80); else cx_assume(c >= 80); o.oid[0] = x; o.oid[1] = c - x * 40; return c;
}
CX_DRIVER(C08, first_two, 171) { unsigned x = cell / 57, b = cell % 57; if (x == 0 ? b > 6 : x == 1 ? b < 6 || b > 7 : b < 7) cx_done(); asn1_oid o; o.count = 2; u64 c = first(o, x, b); unsigned n = groups(b); binary(o, &c, &n, 1); }
// one component of any size at any place of an identifier of any length, the others of one octet
CX_DRIVER(C08, any_component, 11115) {
    unsigned count = 3 + cell / 57 / 15, p = 2 + cell / 57 % 15 - 0, b = cell % 57; if (count > 15 || p >= count) cx_done();
    asn1_oid o; o.count = count; u64 sub[14]; unsigned n[14]; sub[0] = first(o, 1, 6); n[0] = 1;
    for (unsigned i = 2; i < count; i++) { u64 v = i == p ? cx_u64_bits("component", b) : 0x40 | cx_sym("component", 6); o.oid[i] = sub[i - 1] = v; n[i - 1] = i == p ? groups(b) : 1; }
    binary(o, sub, n, count - 1);
}
// two adjacent components of any size
CX_DRIVER(C08, two_components, 3249) {
    asn1_oid o; o.count = 4; u64 sub[3]; unsigned n[3]; sub[0] = first(o, 2, 7); n[0] = 1;
    for (unsigned i = 2; i < 4; i++) { unsigned b = i == 2 ? cell / 57 : cell % 57; u64 v = cx_u64_bits("component", b); o.oid[i] = sub[i - 1] = v; n[i - 1] = groups(b); }
    binary(o, sub, n, 3);
}
CX_DRIVER(C08, refused, 6) {
    asn1_oid o; o.count = 2; o.oid[0] = cx_u64("first"); o.oid[1] = cx_u64("second"); o.oid[2] = cx_u64("third");
    switch (cell) {
    case 0: cx_assume(o.oid[0] > 2); break;
    case 1: cx_assume(o.oid[0] < 2 && o.oid[1] >= 40); break;
    case 2: case 4: case 5: o.oid[0] = cell == 2 ? 2 : cell - 4; cx_assume(o.oid[1] >= (1ull << 56)); break;
    case 3: o.count = cx_u64("count"); cx_assume(o.count > 15); break;
    }
    XB x; xb_init(x, 64, 2, "buffer"); cx_assert(crefl_asn1_ber_oid_write(&x.b, 64, &o) < 0, "components that cannot be encoded are refused"); cx_assert(x.b.data_offset == 0, "refused object identifier writes nothing");
}
CX_DRIVER(C08, big_component, 1) { asn1_oid o; o.count = 3; o.oid[0] = 1; o.oid[1] = 2; o.oid[2] = cx_u64("third"); cx_assume(o.oid[2] >= (1ull << 56)); XB x; xb_init(x, 64, 2, "buffer"); cx_assert(crefl_asn1_ber_oid_write(&x.b, 64, &o) < 0, "components of 2^56 and above are refused"); }
// text: every component value, one class per digit count of the component at place p
static const u64 pow10(unsigned k) { u64 p = 1; while (k--) p *= 10; return p; }
static void text(const asn1_oid &o, unsigned len, const unsigned *nd) {
    size_t n = 0; cx_assert(crefl_asn1_oid_to_string(nullptr, &n, &o) == 0 && n == len, "the text length is reported without a buffer");
    char *s = (char*)cx_object(len + 1, 0, "text"); n = len + 1; cx_assert(crefl_asn1_oid_to_string(s, &n, &o) == 0 && n == len, "the text fits a buffer of its length and terminator"); cx_assert(s[len] == 0, "the text is terminated");
    unsigned at = 0; for (unsigned i = 0; i < o.count; i++) { if (i) { cx_assert(s[at] == '.', "components are separated by a dot"); at++; } u64 v = 0; for (unsigned j = 0; j < nd[i]; j++) { cx_assert(s[at] >= '0' && s[at] <= '9', "components are decimal digits"); v = v * 10 + (u64)(s[at++] - '0'); } cx_assert(v == o.oid[i], "the digits denote the component"); }
    asn1_oid r; cx_assert(crefl_asn1_oid_from_string(&r, s, len) == 0, "the text is accepted"); check_same(o, r);
}
CX_DRIVER(C08, text, 3825) {
    cx_set("digits", 1); unsigned count = 1 + cell / 255, p = cell / 17 % 15, k = 1 + cell % 17; if (p >= count) cx_done(); asn1_oid o; o.count = count; unsigned nd[15], len = count - 1;
    for (unsigned i = 0; i < count; i++) { nd[i] = i == p ? k : 1; len += nd[i]; u64 v = i == p ? cx_sym("component", 56) : cx_sym("component", 4); cx_assume(v < pow10(nd[i])); if (nd[i] > 1) cx_assume(v >= pow10(nd[i] - 1)); o.oid[i] = v; }
    text(o, len, nd);
}
// any text of up to `cell` characters: accepted exactly when it is dot-separated decimal components below 2^56
static void any_text(unsigned n, bool full) {
    char *s = (char*)cx_object(n, 2, "text"); asn1_oid r; int e = crefl_asn1_oid_from_string(&r, s, n); cx_assert(e == 0 || e < 0, "success or a negative error");
    bool ok = true; u64 comp[15]; unsigned c = 0; u64 v = 0; unsigned digits = 0;
    for (unsigned i = 0; i < n && ok; i++) { if (s[i] == '.') { if (!digits) ok = false; else { comp[c++] = v; v = 0; digits = 0; } } else if (s[i] >= '0' && s[i] <= '9') { v = v * 10 + (u64)(s[i] - '0'); digits++; } else ok = false; }
    if (n) { if (!digits) ok = false; else if (ok) comp[c++] = v; }
    if (!ok) { cx_assert(e < 0, "text that is not dot-separated decimal components is refused"); return; }
    cx_assert(e == 0, "dot-separated decimal components are accepted"); cx_assert(r.count == c, "dot-separated decimal components are accepted"); for (unsigned i = 0; i < c; i++) cx_assert(r.oid[i] == comp[i], "each component has the value its digits denote");
}
CX_DRIVER(C08, any_text, 9) { cx_set("disj", 64); any_text(cell, true); }
// a run of digits is accepted exactly when its value is below 2^56; sixteen components are refused
CX_DRIVER(C08, digits, 24) {
    unsigned n = cell + 1; char *s = (char*)cx_object(n, 2, "text"); u64 v = 0; bool big = false;
    for (unsigned i = 0; i < n; i++) { s[i] = 0; u64 d = cx_sym("digit", 4); cx_assume(d <= 9); s[i] = (char)('0' | d); v = v * 10 + d; if (v >= (1ull << 56)) { big = true; break; } }
    asn1_oid r; int e = crefl_asn1_oid_from_string(&r, s, n);
    if (big) cx_assert(e < 0, "components of 2^56 and above are refused"); else { cx_assert(e == 0, "components below 2^56 are accepted"); cx_assert(r.count == 1, "one component"); cx_assert(r.oid[0] == v, "the digits denote the component"); }
}
CX_DRIVER(C08, components, 18) {
    unsigned n = cell; char *s = (char*)cx_object(2 * n, 2, "text"); for (unsigned i = 0; i < n; i++) { u64 d = cx_sym("digit", 4); cx_assume(d <= 9); s[2 * i] = (char)('0' | d); s[2 * i + 1] = '.'; }
    asn1_oid r; int e = crefl_asn1_oid_from_string(&r, s, n ? 2 * n - 1 : 0); if (n > 15) cx_assert(e < 0, "more than fifteen components are refused"); else { cx_assert(e == 0, "up to fifteen components are accepted"); cx_assert(r.count == n, "components are counted"); for (unsigned i = 0; i < n; i++) cx_assert(r.oid[i] == (u64)(s[2 * i] - '0'), "each digit is its component"); }
    if (n) cx_assert(crefl_asn1_oid_from_string(&r, s, 2 * n) < 0, "a trailing dot is refused");
}
// any binary content of up to eight octets, one class per pattern of continuation bits; and longer runs of one-octet components
static void content(unsigned n, unsigned pattern) {
    XB x; xb_init(x, n, 2, "content"); u64 comp[20], v = 0; unsigned c = 0; bool open = false; cx_set("disj", 64);
    for (unsigned i = 0; i < n; i++) {
        open = pattern >> i & 1; x.mem[i] = (char)(cx_sym("octet", 7) | (open ? 0x80 : 0)); v = v << 7 | (xb(x, i) & 0x7f); if (open) continue;
        if (c == 0) { comp[0] = v < 40 ? 0 : v < 80 ? 1 : 2; comp[1] = v - comp[0] * 40; c = 2; } else comp[c++] = v; v = 0;
    }
    asn1_oid r; int e = crefl_asn1_ber_oid_read(&x.b, n, &r); if (open || c > 15) { cx_assert(e < 0, "unterminated and over-long identifiers are refused"); cx_assert(r.count == 0, "a refused identifier is empty"); return; }
    cx_assert(e == 0 && x.b.data_offset == n, "terminated subidentifiers are accepted and consumed exactly"); cx_assert(r.count == c, "components are counted"); for (unsigned i = 0; i < c; i++) cx_assert(r.oid[i] == comp[i], "each component is its subidentifier");
}
CX_DRIVER(C08, any_content, 511) { unsigned n = 0; while ((2u << n) - 1 <= cell) n++; content(n, cell - ((1u << n) - 1)); }
CX_DRIVER(C08, long_content, 10) { content(9 + cell, 0); }
