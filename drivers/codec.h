#pragma once
#include "cx_api.h"
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/asn1.h>
// A buffer over a fresh region of exactly `size` bytes.
struct XB { crefl_buf b; char *mem; uint64_t size; };
static inline void xb_init(XB &x, uint64_t size, int init, const char *name) {
    x.mem = (char*)cx_object(size, init, name); x.size = size;
    x.b.data = x.mem; x.b.data_size = size; x.b.data_offset = 0;
}
static inline uint8_t xb(const XB &x, uint64_t i) { return (uint8_t)x.mem[i]; }
