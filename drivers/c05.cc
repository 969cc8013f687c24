#include "codec.h"
// C05: variable-length floating point (vf). Values are handled as IEEE 754 bit patterns.
static double mk(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float mkf(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static uint32_t bitsf(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static unsigned announced(uint8_t pre) { return 1 + (pre & 0x80 ? (pre >> 4 & 3) + (pre & 15) : 0); }
template <typename T> struct F;
template <> struct F<double> {
    typedef uint64_t U; static double mk(U b) { return ::mk(b); } static U bits(double d) { return ::bits(d); } static const unsigned mant = 52, expn = 11, most = 10;
    static int write(crefl_buf *b, bool byval, double v) { return byval ? crefl_vf_f64_write_byval(b, v) : crefl_vf_f64_write(b, &v); }
    static int read(crefl_buf *b, bool byval, double &v) { if (!byval) return crefl_vf_f64_read(b, &v); f64_result r = crefl_vf_f64_read_byval(b); v = r.value; return r.error < 0 ? -1 : r.error == 0 ? 0 : 1; }
};
template <> struct F<float> {
    typedef uint32_t U; static float mk(U b) { return ::mkf(b); } static U bits(float d) { return ::bitsf(d); } static const unsigned mant = 23, expn = 8, most = 6;
    static int write(crefl_buf *b, bool byval, float v) { return byval ? crefl_vf_f32_write_byval(b, v) : crefl_vf_f32_write(b, &v); }
    static int read(crefl_buf *b, bool byval, float &v) { if (!byval) return crefl_vf_f32_read(b, &v); f32_result r = crefl_vf_f32_read_byval(b); v = r.value; return r.error; }
};
template <typename T> static void check(typename F<T>::U v, bool nan) {
    typedef typename F<T>::U U; U inf = (((U)1 << F<T>::expn) - 1) << F<T>::mant, quiet = inf | (U)1 << (F<T>::mant - 1);
    XB x; xb_init(x, F<T>::most, 0, "out"); cx_assert(F<T>::write(&x.b, false, F<T>::mk(v)) == 0, "every value is written"); uint64_t n = x.b.data_offset;
    cx_assert(n >= 1 && n <= F<T>::most && n == announced(xb(x, 0)), "the prefix octet announces the octets that follow");
    XB y; xb_init(y, n, 0, "out"); cx_assert(F<T>::write(&y.b, true, F<T>::mk(v)) == 0 && y.b.data_offset == n, "both write forms write the same number of octets, and need no more room");
    for (unsigned i = 0; i < n; i++) cx_assert(xb(x, i) == xb(y, i), "both write forms write the same octets");
    for (unsigned byval = 0; byval < 2; byval++) {
        crefl_buf_reset(&y.b); T r; cx_assert(F<T>::read(&y.b, byval, r) == 0 && y.b.data_offset == n, "the written octets are accepted and consumed exactly");
        if (nan) cx_assert((F<T>::bits(r) & quiet) == quiet, "NaN is read back as NaN"); else cx_assert(F<T>::bits(r) == v, "the written value is read back exactly");
    }
    if (n > 1) { XB z; xb_init(z, n - 1, 0, "short"); cx_assert(F<T>::write(&z.b, false, F<T>::mk(v)) < 0, "a value without room is refused"); crefl_buf_reset(&z.b); cx_assert(F<T>::write(&z.b, true, F<T>::mk(v)) < 0, "a value without room is refused"); }
}
template <typename T> static void normal(unsigned ex, unsigned tz) {
    typedef typename F<T>::U U; const unsigned M = F<T>::mant; cx_set("disj", 2);
    U s = (U)cx_sym("sign", 1), m = 0; if (tz < M) { m = (U)1 << tz; if (tz + 1 < M) m |= (U)cx_sym("fraction", M - 1 - tz) << (tz + 1); }
    check<T>(s << (M + F<T>::expn) | (U)ex << M | m, false);
}
template <typename T> static void subnormal(unsigned tz, unsigned hi) {
    typedef typename F<T>::U U; if (hi < tz) cx_done(); cx_set("disj", 32);
    U s = (U)cx_sym("sign", 1), m = (U)1 << tz | (U)1 << hi; if (hi > tz + 1) m |= (U)cx_sym("fraction", hi - tz - 1) << (tz + 1);
    check<T>(s << (F<T>::mant + F<T>::expn) | m, false);
}
template <typename T> static void special(unsigned k) {
    typedef typename F<T>::U U; const unsigned M = F<T>::mant; U s = (U)cx_sym("sign", 1) << (M + F<T>::expn), inf = (((U)1 << F<T>::expn) - 1) << M; cx_set("disj", 64);
    if (k == 0) check<T>(s, false); else if (k == 1) check<T>(s | inf, false); else { U m = (U)cx_sym("payload", M); cx_assume(m != 0); check<T>(s | inf | m, true); }
}
// quick tier: every exponent within 160 of one, and every eighth of the others
CX_DRIVER(C05, f64_some_normal, 30528) { unsigned i = cell / 53, ex = i < 320 ? 863 + i : (i - 320) * 8 + 1; normal<double>(ex, cell % 53); }
CX_DRIVER(C05, f64_all_normal, 108438) { normal<double>(cell / 53 + 1, cell % 53); }
CX_DRIVER(C05, f64_subnormal, 2704) { subnormal<double>(cell / 52, cell % 52); }
CX_DRIVER(C05, f64_special, 3) { special<double>(cell); }
CX_DRIVER(C05, f32_normal, 6096) { normal<float>(cell / 24 + 1, cell % 24); }
CX_DRIVER(C05, f32_subnormal, 529) { subnormal<float>(cell / 23, cell % 23); }
CX_DRIVER(C05, f32_special, 3) { special<float>(cell); }
