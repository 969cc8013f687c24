#include "cx_api.h"
#include <crefl/oid.h>
// O01: the name of an object identifier is the one the data gives it, and no other content has a name.
static const struct { unsigned n; uint8_t b[16]; const char *name; } DATA[] = {
#include "oids.inc"
};
enum { N = sizeof DATA / sizeof DATA[0] };
// the data are in order of length and octets
// what the data say of the contents q[0..n-1), x: the names for each x
static const char *want[256], *also[256]; static uint8_t *q; static unsigned len;
static void prefix(const uint8_t *b, unsigned n) {
    for (unsigned x = 0; x < 256; x++) want[x] = also[x] = ""; unsigned lo = 0, hi = N; while (lo < hi) { unsigned m = (lo + hi) / 2; if (DATA[m].n < n || (DATA[m].n == n && memcmp(DATA[m].b, b, n - 1) < 0)) lo = m + 1; else hi = m; } for (unsigned i = lo; i < N && DATA[i].n == n; i++) if (!memcmp(DATA[i].b, b, n - 1)) { unsigned x = DATA[i].b[n - 1]; if (!*want[x]) want[x] = DATA[i].name; also[x] = DATA[i].name; }
    q = (uint8_t*)cx_object(len = n, 1, "content"); for (unsigned k = 0; k + 1 < n; k++) q[k] = b[k];
}
static void look(unsigned x) { q[len - 1] = x; cx_readonly(q); const char *r = crefl_asn1_oid_desc((const char*)q, len); cx_writable(q); cx_assert(r && (!strcmp(r, want[x]) || !strcmp(r, also[x])), *want[x] ? "an identifier in the data has its name" : "other contents have no name"); }
static bool first(unsigned i) { return !i || DATA[i - 1].n != DATA[i].n || memcmp(DATA[i - 1].b, DATA[i].b, DATA[i].n - 1); }
static void big() { cx_set("states", 40000000); cx_set("unroll", 70000); cx_set("iter", 40000000); }
static const uint8_t SOME[8] = { 0, 1, 2, 0x7f, 0x80, 0x81, 0xa5, 0xff };
// every prefix of an identifier in the data followed by every octet
CX_DRIVER(O01, sibling, 24) { big(); unsigned k = 0; for (unsigned i = 0; i < N; i++) if (first(i) && k++ % 24 == cell) { prefix(DATA[i].b, DATA[i].n); for (unsigned x = 0; x < 256; x++) look(x); cx_kill(q); } }
// every identifier in the data cut short and followed by more octets
CX_DRIVER(O01, longer, 24) { big(); for (unsigned i = cell; i < N; i += 24) { uint8_t b[24] = { 0 }; for (unsigned k = 0; k < DATA[i].n; k++) b[k] = DATA[i].b[k]; for (unsigned n = DATA[i].n + 1; n < DATA[i].n + 4; n++) { prefix(b, n); for (unsigned x = 0; x < 8; x++) look(SOME[x]); cx_kill(q); b[n - 1] = 0x80 + cell; } if (DATA[i].n > 1) { prefix(b, DATA[i].n - 1); look(b[DATA[i].n - 2]); cx_kill(q); } } }
CX_DRIVER(O01, all_longer, 360) { big(); for (unsigned i = cell; i < N; i += 360) { prefix(DATA[i].b, DATA[i].n); prefix(DATA[i].b, DATA[i].n + 1); for (unsigned x = 0; x < 256; x++) look(x); cx_kill(q); } }
// the empty content, every single octet, and every pair
CX_DRIVER(O01, empty, 1) { big(); cx_assert(!*crefl_asn1_oid_desc("x", 0), "other contents have no name"); }
CX_DRIVER(O01, all_pair, 128) { big(); for (unsigned a = 2 * cell; a < 2 * cell + 2; a++) { uint8_t b[2] = { (uint8_t)a, 0 }; prefix(b, 2); for (unsigned x = 0; x < 256; x++) look(x); cx_kill(q); } }
