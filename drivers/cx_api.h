// Interface between property drivers and the cx analyser. Drivers are C++ code
// that is compiled to LLVM IR and interpreted abstractly; nothing is executed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
extern "C" {
uint64_t cx_sym(const char *name, unsigned bits);       // any value of the given width
void cx_assume(bool c);
void cx_assert(bool c, const char *what);               // obligation
[[noreturn]] void cx_fail(const char *what);
uint64_t cx_choose(uint64_t lo, uint64_t hi);           // partition on a constant
void *cx_object(uint64_t size, int init, const char *name); // 0 undefined, 1 zero, 2 arbitrary contents
void cx_readonly(void *p); void cx_writable(void *p); void cx_kill(void *p);
void cx_havoc(void *p, uint64_t len);
char *cx_cstring(uint64_t len);                         // NUL terminated string of (possibly symbolic) length
void cx_set(const char *opt, uint64_t v);
[[noreturn]] void cx_stop(); [[noreturn]] void cx_done(); void cx_reach();
bool cx_is_live(const void *p); bool cx_same_object(const void *a, const void *b);
uint64_t cx_object_size(const void *p); uint64_t cx_offset_of(const void *p);
uint64_t cx_heap_live(); uint64_t cx_files_open(); bool cx_io_failed();
char *cx_text(); uint64_t cx_out_len(); uint16_t cx_out_at(uint64_t i); void cx_out_reset();
void cx_print(const char *m, uint64_t v); bool cx_is_const(uint64_t v); bool cx_undef(uint64_t v);
}
#define CX_CAT_(a,b,c,d,e,f) a##b##c##d##e##f
#define CX_DRIVER(P,name,cells) extern "C" void CX_CAT_(cx_drv__,P,__,name,__,cells)(uint32_t cell)
#define CX_STUB(P,ret,fn) extern "C" ret cx_stub__##P##__##fn
static inline uint64_t cx_u64(const char *n) { return cx_sym(n, 64); }
static inline uint32_t cx_u32(const char *n) { return (uint32_t)cx_sym(n, 32); }
static inline uint8_t cx_u8(const char *n) { return (uint8_t)cx_sym(n, 8); }
static inline bool cx_bool(const char *n) { return (bool)(cx_sym(n, 1) & 1); }
// a 64-bit value whose highest set bit is bit n-1 (n==0: zero)
static inline uint64_t cx_u64_bits(const char *nm, unsigned n) {
    if (n == 0) return 0;
    uint64_t v = n == 1 ? 0 : cx_sym(nm, n - 1);
    return v | ((uint64_t)1 << (n - 1));
}
// lowest set bit is bit t, highest is bit n-1 (t < n)
static inline uint64_t cx_u64_span(const char *nm, unsigned t, unsigned n) {
    if (n == 0) return 0;
    uint64_t v = (uint64_t)1 << (n - 1) | (uint64_t)1 << t;
    if (n - t > 2) v |= cx_sym(nm, n - t - 2) << (t + 1);
    return v;
}
