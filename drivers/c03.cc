#include "codec.h"
// C03: LEB128 and VLU variable length integers.
CX_DRIVER(C03, roundtrip, 57) {
    u64 v = cx_u64_bits("value", cell); unsigned n = cell == 0 ? 1 : (cell + 6) / 7;
    for (unsigned vlu = 0; vlu < 2; vlu++) for (unsigned byval = 0; byval < 2; byval++) {
        XB x; xb_init(x, n, 0, "out"); int e;
        if (vlu) e = byval ? crefl_vlu_u64_write_byval(&x.b, v) : crefl_vlu_u64_write(&x.b, &v); else e = byval ? crefl_leb_u64_write_byval(&x.b, v) : crefl_leb_u64_write(&x.b, &v);
        cx_assert(e == 0 && x.b.data_offset == n, "write uses the minimal number of octets, one per seven bits");
        u64 packed = (v << n) | (((u64)1 << (n - 1)) - 1);
        for (unsigned i = 0; i < n; i++) {
            if (vlu) { if (n < 8) cx_assert(xb(x, i) == (uint8_t)(packed >> (8 * i)), "unary length prefix in the low bits, value above it"); else cx_assert(xb(x, i) == (i ? (uint8_t)(v >> (8 * (i - 1))) : 0x7f), "unary length prefix in the low bits, value above it"); }
            else cx_assert(xb(x, i) == (((v >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0)), "seven-bit groups least significant first, continuation on all but the last");
        }
        for (unsigned rv = 0; rv < 2; rv++) {
            crefl_buf_reset(&x.b); u64 r = cx_u64("previous"); int e;
            if (rv) { u64_result q = vlu ? crefl_vlu_u64_read_byval(&x.b) : crefl_leb_u64_read_byval(&x.b); e = (int)q.error; r = q.value; }
            else e = vlu ? crefl_vlu_u64_read(&x.b, &r) : crefl_leb_u64_read(&x.b, &r);
            cx_assert(e == 0 && r == v && x.b.data_offset == n, "read returns the written value and consumes exactly its octets");
        }
        // one octet short: refused without touching anything outside
        XB y; xb_init(y, n - 1, 0, "short");
        if (vlu) e = byval ? crefl_vlu_u64_write_byval(&y.b, v) : crefl_vlu_u64_write(&y.b, &v); else e = byval ? crefl_leb_u64_write_byval(&y.b, v) : crefl_leb_u64_write(&y.b, &v);
        cx_assert(e < 0 && y.b.data_offset == 0, "write without room is refused and writes nothing");
    }
}
CX_DRIVER(C03, too_big, 1) {
    u64 v = cx_u64("value"); cx_assume(v >> 56 != 0); XB x; xb_init(x, 32, 0, "out");
    cx_assert(crefl_leb_u64_write(&x.b, &v) < 0 && crefl_leb_u64_write_byval(&x.b, v) < 0, "LEB128 values of 2^56 and above are refused");
    cx_assert(crefl_vlu_u64_write(&x.b, &v) < 0 && crefl_vlu_u64_write_byval(&x.b, v) < 0, "VLU values of 2^56 and above are refused");
    cx_assert(x.b.data_offset == 0, "refused value writes nothing");
}
// any octets: accepted exactly when a terminated encoding of at most eight octets lies within the buffer
CX_DRIVER(C03, leb_any, 10) {
    XB x; xb_init(x, cell, 2, "content"); unsigned n = 0; u64 want = 0;
    while (n < cell && n < 8) { want |= (u64)(xb(x, n) & 0x7f) << (7 * n); n++; if (!(xb(x, n - 1) & 0x80)) break; }
    bool ok = n > 0 && !(xb(x, n - 1) & 0x80);
    u64 r = cx_u64("previous"); int e = crefl_leb_u64_read(&x.b, &r); uint64_t at = x.b.data_offset;
    crefl_buf_reset(&x.b); u64_result q = crefl_leb_u64_read_byval(&x.b);
    cx_assert((e == 0) == (q.error == 0), "both forms accept the same octets"); cx_assert(e == 0 || (e < 0 && q.error < 0), "failure is reported as negative");
    if (ok) { cx_assert(e == 0 && r == want && q.value == want && at == n && x.b.data_offset == n, "terminated LEB128 is decoded"); }
    else cx_assert(e < 0, "unterminated or over-long LEB128 is refused");
}
CX_DRIVER(C03, vlu_any, 10) {
    XB x; xb_init(x, cell, 2, "content"); u64 r = cx_u64("previous"); unsigned n = 0; u64 want = 0; bool ok = cell > 0;
    if (ok) { while (n < 8 && (xb(x, 0) >> n & 1)) n++; n++; ok = n <= 8 && n <= cell; }
    if (ok) { for (unsigned i = 0; i < n; i++) want |= (u64)xb(x, i) << (8 * i); want >>= n; }
    int e = crefl_vlu_u64_read(&x.b, &r); uint64_t at = x.b.data_offset; crefl_buf_reset(&x.b); u64_result q = crefl_vlu_u64_read_byval(&x.b);
    cx_assert((e == 0) == (q.error == 0), "both forms accept the same octets"); cx_assert(e == 0 || (e < 0 && q.error < 0), "failure is reported as negative");
    if (ok) cx_assert(e == 0 && r == want && q.value == want && at == n && x.b.data_offset == n, "complete VLU is decoded");
    else cx_assert(e < 0, "truncated or over-long VLU is refused");
}
