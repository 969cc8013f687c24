#include "codec.h"
// B01: buffer transfers. The buffer has any capacity and any cursor within it.
struct BB { crefl_buf b; uint64_t cap, off; char *mem; };
static void any_buffer(BB &x) {
    x.cap = cx_sym("capacity", 40); x.off = cx_sym("cursor", 40); cx_assume(x.off <= x.cap);
    x.mem = (char*)cx_object(x.cap, 2, "buffer"); x.b.data = x.mem; x.b.data_size = x.cap; x.b.data_offset = x.off;
}
static void intact(BB &x) { cx_assert(x.b.data == x.mem && x.b.data_size == x.cap, "transfer leaves the buffer's storage and capacity alone"); }
template <typename T, typename W, typename R> static void scalar(W wr, R rd) {
    BB x; any_buffer(x); const unsigned n = sizeof(T);
    T v = (T)cx_sym("value", n * 8); bool fits = x.cap - x.off >= n;
    uint64_t k = cx_sym("witness", 40); cx_assume(k < x.cap); char before = x.mem[k];
    size_t r = wr(&x.b, v); intact(x);
    if (!fits) {
        cx_assert(r == 0, "write that does not fit reports zero octets");
        cx_assert(x.b.data_offset == x.off, "write that does not fit leaves the cursor");
        cx_assert(x.mem[k] == before, "write that does not fit changes nothing");
        T o = (T)cx_sym("previous", n * 8), p = o; r = rd(&x.b, &o); intact(x);
        cx_assert(r == 0 && x.b.data_offset == x.off, "read past the end reports zero octets and leaves the cursor");
        cx_assert(o == p, "read past the end leaves the destination");
        return;
    }
    cx_assert(r == n, "write reports the octets written");
    cx_assert(x.b.data_offset == x.off + n, "write advances the cursor by the octets written");
    for (unsigned i = 0; i < n; i++) cx_assert((uint8_t)x.mem[x.off + i] == (uint8_t)((uint64_t)v >> (8 * i)), "value is stored least significant octet first");
    if (k < x.off || k >= x.off + n) cx_assert(x.mem[k] == before, "write changes only its own octets");
    x.b.data_offset = x.off; T o; r = rd(&x.b, &o); intact(x);
    cx_assert(r == n && o == v, "read returns the stored value");
    cx_assert(x.b.data_offset == x.off + n, "read advances the cursor by the octets read");
}
CX_DRIVER(B01, i8, 1) { scalar<int8_t>(crefl_buf_write_i8, crefl_buf_read_i8); }
CX_DRIVER(B01, i16, 1) { scalar<int16_t>(crefl_buf_write_i16, crefl_buf_read_i16); }
CX_DRIVER(B01, i32, 1) { scalar<int32_t>(crefl_buf_write_i32, crefl_buf_read_i32); }
CX_DRIVER(B01, i64, 1) { scalar<int64_t>(crefl_buf_write_i64, crefl_buf_read_i64); }
// the unchecked forms, called with room available
template <typename T, typename W, typename R> static void unchecked(W wr, R rd) {
    BB x; any_buffer(x); const unsigned n = sizeof(T); cx_assume(x.cap - x.off >= n);
    T v = (T)cx_sym("value", n * 8), o;
    cx_assert(wr(&x.b, v) == n && x.b.data_offset == x.off + n, "unchecked write moves its own size");
    for (unsigned i = 0; i < n; i++) cx_assert((uint8_t)x.mem[x.off + i] == (uint8_t)((uint64_t)v >> (8 * i)), "value is stored least significant octet first");
    x.b.data_offset = x.off; cx_assert(rd(&x.b, &o) == n && o == v && x.b.data_offset == x.off + n, "unchecked read returns the stored value");
}
CX_DRIVER(B01, unchecked, 4) {
    if (cell == 0) unchecked<int8_t>(crefl_buf_write_unchecked_i8, crefl_buf_read_unchecked_i8);
    if (cell == 1) unchecked<int16_t>(crefl_buf_write_unchecked_i16, crefl_buf_read_unchecked_i16);
    if (cell == 2) unchecked<int32_t>(crefl_buf_write_unchecked_i32, crefl_buf_read_unchecked_i32);
    if (cell == 3) unchecked<int64_t>(crefl_buf_write_unchecked_i64, crefl_buf_read_unchecked_i64);
}
// byte strings of any length, including lengths that wrap the address space
CX_DRIVER(B01, bytes_write, 2) {
    BB x; any_buffer(x); uint64_t len = cx_u64("length"); bool fits = len <= x.cap - x.off;
    char *src = 0;
    if (fits) src = (char*)cx_object(len, 2, "source"); else src = (char*)cx_object(1, 2, "source");
    uint64_t k = cx_sym("witness", 40); cx_assume(k < x.cap); char before = x.mem[k];
    size_t r;
    if (cell == 1) { cx_assume(fits); r = crefl_buf_write_bytes_unchecked(&x.b, src, len); }
    else r = crefl_buf_write_bytes(&x.b, src, len);
    intact(x);
    if (!fits) { cx_assert(r == 0 && x.b.data_offset == x.off, "byte write that does not fit is refused"); cx_assert(x.mem[k] == before, "refused byte write changes nothing"); return; }
    cx_assert(r == len && x.b.data_offset == x.off + len, "byte write moves exactly the requested length");
    if (k >= x.off && k < x.off + len) cx_assert(x.mem[k] == src[k - x.off], "byte write copies the source in order");
    else cx_assert(x.mem[k] == before, "byte write changes only its own octets");
}
CX_DRIVER(B01, bytes_read, 2) {
    BB x; any_buffer(x); uint64_t len = cx_u64("length"); bool fits = len <= x.cap - x.off;
    char *dst = 0; uint64_t dl = fits ? len : 16; dst = (char*)cx_object(dl, 2, "destination");
    uint64_t k = cx_sym("witness", 40); cx_assume(k < dl); char before = dst[k];
    size_t r;
    if (cell == 1) { cx_assume(fits); r = crefl_buf_read_bytes_unchecked(&x.b, dst, len); }
    else r = crefl_buf_read_bytes(&x.b, dst, len);
    intact(x);
    if (!fits) { cx_assert(r == 0 && x.b.data_offset == x.off, "byte read that does not fit is refused"); cx_assert(dst[k] == before, "refused byte read leaves the destination"); return; }
    cx_assert(r == len && x.b.data_offset == x.off + len, "byte read moves exactly the requested length");
    cx_assert(dst[k] == x.mem[x.off + k], "byte read copies the buffer in order");
}
CX_DRIVER(B01, cursor, 1) {
    BB x; any_buffer(x); uint64_t to = cx_sym("target", 40); cx_assume(to <= x.cap);
    cx_assert(crefl_buf_offset(&x.b) == x.off && crefl_buf_data(&x.b) == x.mem, "cursor and storage are reported");
    crefl_span s = crefl_buf_remaining(&x.b);
    cx_assert(s.data == x.mem + x.off && s.length == x.cap - x.off, "the remaining region is what lies between cursor and capacity");
    crefl_buf_seek(&x.b, to); cx_assert(x.b.data_offset == to, "seek sets the cursor"); intact(x);
    crefl_buf_reset(&x.b); cx_assert(x.b.data_offset == 0, "reset returns to the start"); intact(x);
}
CX_DRIVER(B01, lifecycle, 1) {
    uint64_t n = cx_sym("size", 40); cx_assume(n > 0);
    crefl_buf *b = crefl_buf_new(n); cx_assert(b->data_size == n && b->data_offset == 0 && cx_object_size(b->data) == n, "a new buffer is empty with the requested capacity");
    uint64_t k = cx_sym("witness", 40); cx_assume(k < n); cx_assert(b->data[k] == 0, "a new buffer is zeroed");
    crefl_buf_destroy(b); cx_assert(cx_heap_live() == 0, "destroy releases everything");
}
