#include <cerrno>
#include "codec.h"
#include <crefl/oid.h>
#include <sys/stat.h>
// T02: asn1tool walks exactly the objects of a file, and its exit status tells whether it is well formed.
int cx_target_main_asn1tool(int argc, const char **argv);
static uint8_t *disk; static uint64_t size, nread; static bool failed, ran, good, text; static unsigned opened, closed; static char handle; static const char *file;
CX_STUB(T02, FILE*, fopen)(const char *f, const char *m) { cx_assert(ran && f == file && m[0] == 'r' && opened == closed, "the file named is read"); if (failed && !cx_choose(0, 1)) return 0; opened++; return (FILE*)&handle; }
CX_STUB(T02, int, fclose)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the open file is closed once"); closed++; return 0; }
CX_STUB(T02, int, fileno)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); return 3; }
CX_STUB(T02, int, fstat)(int fd, struct stat *st) { cx_assert(fd == 3, "the open file is queried"); if (failed && !cx_choose(0, 1)) return -1; memset(st, 0, sizeof *st); st->st_size = size; return 0; }
CX_STUB(T02, size_t, fread)(void *p, size_t sz, size_t n, FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); uint64_t k = sz * n; if (k > size - nread) k = size - nread; if (failed) k = k ? k - 1 : 0; for (uint64_t i = 0; i < k; i++) ((uint8_t*)p)[i] = disk[nread + i]; nread += k; return sz ? k / sz : 0; }
// object identifiers: their conversions and names are those of C08 and O01; here they are told the content of the object, in order
static struct { uint64_t at, n; } oid[64]; static unsigned oids, oidn, named; static const char *NAME[4] = { "", "X509", "a name", "b" };
CX_STUB(T02, const char*, crefl_asn1_oid_desc)(const char *p, size_t n) { cx_assert(named < oids && n == oid[named].n, "the name looked up is that of the content"); for (size_t i = 0; i < n; i++) cx_assert((uint8_t)p[i] == disk[oid[named].at + i], "the name looked up is that of the content"); return NAME[named++ % 4]; }
CX_STUB(T02, int, crefl_asn1_ber_oid_read)(crefl_buf *b, size_t n, asn1_oid *o) { cx_assert(oidn < oids && n == oid[oidn].n && crefl_buf_remaining(b).length >= n, "the identifier converted is the content"); const char *p = b->data + crefl_buf_offset(b); for (size_t i = 0; i < n; i++) cx_assert((uint8_t)p[i] == disk[oid[oidn].at + i], "the identifier converted is the content"); o->count = 1; o->oid[0] = ++oidn; crefl_buf_seek(b, crefl_buf_offset(b) + n); return 0; }
CX_STUB(T02, int, crefl_asn1_oid_to_string)(char *s, size_t *len, const asn1_oid *o) { cx_assert(o->count == 1, "the identifier printed is the one converted"); size_t room = *len, n = o->oid[0] % 7 * 3; if (s && room) { for (size_t i = 0; i < n && i + 1 < room; i++) s[i] = 'a' + i; s[n < room ? n : room - 1] = 0; } *len = n; return 0; }
// the objects of the file, and what is printed for each
struct Txt { unsigned n; char b[300000]; }; static Txt t;
static void put(const char *s) { while (*s) { cx_assert(t.n < sizeof t.b, "texts are short"); t.b[t.n++] = *s++; } }
static void num(uint64_t v, unsigned w, bool left) { char d[24]; unsigned n = 0; do { d[n++] = '0' + v % 10; v /= 10; } while (v); if (!left) for (unsigned i = n; i < w; i++) put(" "); unsigned k = n; while (n) t.b[t.n++] = d[--n]; if (left) for (unsigned i = k; i < w; i++) put(" "); }
static const char *TAG[32] = { "reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor", "external", "real", "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "reserved_14", "reserved_15", "sequence", "set", "numeric_string", "printable_string", "t61_string", "reserved_21", "ia5_string", "utc_time", "generalized_time", "graphic_string", "iso646_string", "general_string", "utf32_string", "reserved_29", "utf16_string", "reserved_31" };
static void line(uint64_t at, uint64_t len, unsigned depth, unsigned id, uint64_t tag) {
    put("["); num(at, 5, false); put(";"); num(len, 5, true); put("]"); for (unsigned i = 0; i < depth; i++) put("  "); put("|-"); put(id & 32 ? "*" : " "); const char *n = tag < 32 ? TAG[tag] : "<unknown>"; put(n); for (unsigned i = strlen(n); i < 20; i++) put(" ");
    bool hex = tag == 2 || tag == 3 || tag == 9, quote = tag == 19 || tag == 23, isoid = tag == 6; if (hex || quote || isoid) for (unsigned i = depth; i < 15; i++) put("  ");
    if (isoid) { put(NAME[(oids - 1) % 4]); put(" ("); for (unsigned i = 0; i < oids % 7 * 3; i++) t.b[t.n++] = 'a' + i; put(")"); } if (quote) { put("\""); for (uint64_t i = 0; i < len; i++) t.b[t.n++] = disk[at + i]; put("\""); }
    if (hex) { put("{"); for (uint64_t i = 0; i < len; i++) { if (i) put(","); t.b[t.n++] = "0123456789abcdef"[disk[at + i] >> 4]; t.b[t.n++] = "0123456789abcdef"[disk[at + i] & 15]; } put("}"); }
    put("\n");
}
static uint64_t walk(uint64_t at, uint64_t limit, unsigned depth) { // the end of the object, or 0
    if (depth > 15 || at >= limit) return 0; uint8_t id = disk[at++]; uint64_t tag = id & 31, len = 0;
    if (tag == 31) { tag = 0; bool end = false; for (unsigned i = 0; i < 8 && !end; i++) { if (at >= limit) return 0; uint8_t o = disk[at++]; tag = tag << 7 | (o & 127); if (o < 128) end = true; } if (!end) return 0; if (tag < 31) return 0; }
    if (at >= limit) return 0; uint8_t l = disk[at++]; if (l < 128) len = l; else { unsigned k = 0; for (unsigned j = 1; j <= 8; j++) if (l == 128 + j) k = j; if (!k) return 0; for (unsigned i = 0; i < k; i++) { if (at >= limit) return 0; len = len << 8 | disk[at++]; } }
    uint64_t n = ~0ull; for (uint64_t i = 0; i <= limit - at; i++) if (len == i) n = i; if (n == ~0ull) return 0;
    if (tag == 6) { cx_assert(oids < 64, "few identifiers"); oid[oids].at = at; oid[oids++].n = n; } if (text) line(at, n, depth, id, tag);
    uint64_t end = at + n; if (tag == 16 || tag == 17) { while (at < end) { at = walk(at, end, depth + 1); if (!at) return 0; } } return end;
}
static bool all() { uint64_t at = 0; if (!size) return false; while (at < size) { at = walk(at, size, 0); if (!at) return false; } return true; }
static void check() { if (!text || !good) return; cx_assert(cx_out_len() == t.n, "one line is printed for each object"); for (unsigned i = 0; i < t.n; i++) cx_assert(cx_out_at(i) == (uint16_t)(uint8_t)t.b[i], "each object is printed with its position, length, nesting, tag and value"); }
CX_STUB(T02, void, exit)(int code) { cx_assert((code == 0) == (ran && !failed && good), "the exit status is zero exactly when the file is read and every object in it is well formed"); cx_assert(opened == closed, "the file is closed"); if (good && !failed && ran) cx_assert(oidn == oids && named == oids, "every identifier is converted and named"); check(); cx_done(); }
static void run(const char *a1, const char *a2, const char *a3 = 0) { static const char *argv[5]; argv[0] = "asn1tool"; argv[1] = a1; argv[2] = file = a2; argv[3] = a3; int n = 1; while (argv[n]) n++; int code = cx_target_main_asn1tool(n, argv); exit(code); }
// files of any octets: one class per size and low bits of the first identifier
static void any(unsigned n, unsigned low) { cx_set("disj", 4096); if (!n && low) cx_done(); size = n; disk = (uint8_t*)cx_object(size, 2, "file"); if (size) cx_assume((disk[0] & 31) == low); good = all(); ran = true; run("--dump", "f"); }
CX_DRIVER(T02, any, 224) { any(cell / 32, cell % 32); }
CX_DRIVER(T02, all_any, 32) { any(7, cell); }

// nesting: d levels of set or sequence around a leaf of any octets
CX_DRIVER(T02, nest, 72) {
    unsigned d = cell % 18, leaf = cell / 18; cx_set("disj", 1024); size = 2 * d + leaf; if (!size) { good = false; ran = true; disk = (uint8_t*)cx_object(1, 2, "file"); run("--dump", "f"); } disk = (uint8_t*)cx_object(size, 2, "file"); for (unsigned i = 0; i < d; i++) { disk[2 * i] = 0x30 + i % 2; disk[2 * i + 1] = 2 * (d - i - 1) + leaf; } good = all(); ran = true; run("--dump", "f");
}
// lengths and tags of every form on a leaf after a first object, and as a nested object with siblings
CX_DRIVER(T02, forms, 45) {
    unsigned k = cell % 9, g = cell / 9; cx_set("disj", 1024); size = 40; disk = (uint8_t*)cx_object(size, 1, "file"); unsigned p = 0; disk[p++] = 0x24; disk[p++] = 1; disk[p++] = cx_u8("content"); unsigned seq = p; disk[p++] = 0x30; p++;
    if (!g) disk[p++] = cx_u8("identifier"); else { disk[p++] = 0x9f; for (unsigned i = 0; i < 2 * g; i++) disk[p++] = (i + 1 < 2 * g ? 0x80 : 0) | cx_sym("group", 7); }
    if (!k) disk[p++] = cx_u8("length"); else { disk[p++] = 128 + k; for (unsigned i = 0; i < k; i++) disk[p++] = i + 1 < k ? 0 : cx_u8("length"); } p += 6; disk[p++] = 5; disk[p++] = 0; disk[seq + 1] = p - seq - 2; disk[p++] = 4; disk[p++] = 1; disk[p++] = 7; size = p; good = all(); ran = true; run("--dump", "f");
}
// failing reads
CX_DRIVER(T02, failing, 6) { size = cell; disk = (uint8_t*)cx_object(6, 1, "file"); for (unsigned i = 0; i + 1 < cell; i += 2) disk[i] = 5; good = all(); ran = failed = true; run("--dump", "f"); }
// command lines
CX_DRIVER(T02, usage, 12) { static const char *U[12][3] = { { 0, 0, 0 }, { "--dump", 0, 0 }, { "--dump", "f", "g" }, { "f", 0, 0 }, { "--dum", "f", 0 }, { "--dumps", "f", 0 }, { "dump", "f", 0 }, { "", "f", 0 }, { "-", "f", 0 }, { "f", "--dump", 0 }, { "--Dump", "f", 0 }, { "--help", "f", 0 } }; cx_set("capture", 1); run(U[cell][0], U[cell][1], U[cell][2]); }
CX_DRIVER(T02, option, 16) { cx_set("disj", 512); char *s = (char*)cx_object(cell + 1, 2, "option"); s[cell] = 0; if (!strcmp(s, "--dump")) cx_stop(); run(s, "f"); }
// printed lines: every tag and class with content of each size, siblings and nesting
static void object(unsigned &p, unsigned id, unsigned n, unsigned seed) { disk[p++] = id; disk[p++] = n; for (unsigned i = 0; i < n; i++) disk[p++] = (id & 31) == 16 || (id & 31) == 17 ? 0 : (id & 31) == 19 || (id & 31) == 23 ? 'A' + (seed + i) % 50 : seed * 31 + i * 77; }
CX_DRIVER(T02, printed, 128) {
    cx_set("capture", 1); text = true; disk = (uint8_t*)cx_object(4000, 1, "file"); unsigned p = 0, tag = cell % 31; object(p, tag | (cell % 8) << 5, cell % 3 * 2, cell); unsigned d = cell % 16, at[16]; for (unsigned i = 0; i < d; i++) { object(p, 5, 0, 0); at[i] = p; disk[p++] = 0x30 + (cell + i) % 2; p += 1; if (i % 3 == 1) object(p, 0x80 | tag, i % 5 * 2, i + cell); }
    object(p, tag, 2, 9); object(p, (tag * 5 + 1) % 31, 4, 3); object(p, 6, 1 + cell % 2, 4); for (unsigned i = d; i--; ) { unsigned n = p - at[i] - 2; if (n > 127) { for (unsigned k = p + 1; k > at[i] + 3; k--) disk[k] = disk[k - 2]; p += 2; disk[at[i] + 1] = 0x82; disk[at[i] + 2] = n >> 8; disk[at[i] + 3] = n; } else disk[at[i] + 1] = n; if (i % 4 == 0) object(p, 19, 3, i); }
    disk[p++] = 0x9f; disk[p++] = 0x81 + cell % 5; disk[p++] = 3 + cell; if (disk[p - 1] > 127) disk[p - 1] = 64; disk[p++] = 0x82; disk[p++] = 1; disk[p++] = 4; for (unsigned i = 0; i < 260; i++) disk[p++] = i; object(p, 2, 0, 1); size = p; good = all(); ran = true; run("--dump", "f");
}
// contents of hundreds and thousands of octets, and files of hundreds of objects
static void big(unsigned &p, unsigned id, unsigned n, unsigned form, unsigned seed) { disk[p++] = id; if (n < 128 && !form) disk[p++] = n; else { unsigned k = form ? form : n < 256 ? 1 : n < 65536 ? 2 : 3; disk[p++] = 128 + k; for (unsigned i = k; i--;) disk[p++] = i < 4 ? n >> (8 * i) : 0; } for (unsigned i = 0; i < n; i++) disk[p++] = (id & 31) == 19 || (id & 31) == 23 ? 'A' + (seed + i) % 50 : seed * 31 + i * 77; }
CX_DRIVER(T02, large, 48) {
    static const unsigned N[12] = { 60, 126, 127, 128, 129, 255, 256, 257, 1000, 4096, 9000, 66000 }, TAGS[7] = { 2, 3, 9, 19, 23, 4, 6 }; cx_set("capture", 1); cx_set("states", 4000000); cx_set("iter", 300000); text = true; unsigned room = cell < 36 ? 200000 : 4000; disk = (uint8_t*)cx_object(room, 1, "file"); unsigned p = 0;
    if (cell < 36) { unsigned n = N[cell % 12], tag = TAGS[(cell + cell / 12 * 2) % 7]; if (cell % 3 == 1) { unsigned q = 2 + 4 * 5 + n + 40; (void)q; } unsigned at = p; bool in = cell % 3 == 1; if (in) { disk[p++] = 0x30; disk[p++] = 0x84; p += 4; } big(p, 5, 0, cell % 5, 0); big(p, tag | (cell % 4) << 6, n, cell % 4 == 3 ? 8 : 0, cell); big(p, TAGS[(cell + 1) % 7], cell % 9 + 120, 0, cell + 7); if (in) { unsigned m = p - at - 6; for (unsigned i = 0; i < 4; i++) disk[at + 2 + i] = m >> (24 - 8 * i); } big(p, 2, 1, 0, 9); if (n == 66000) { big(p, 4, 40000, 0, 1); big(p, 19, 3, 0, 2); } }
    else { static const unsigned C[12] = { 16, 17, 40, 64, 65, 120, 128, 200, 256, 260, 300, 500 }; unsigned c = C[cell - 36], at = p; bool in = cell % 2; if (in) { disk[p++] = 0x31; disk[p++] = 0x82; p += 2; } for (unsigned i = 0; i < c; i++) { unsigned k = i % 5; if (k == 3 && i < 300) { unsigned q = p; disk[p++] = 0x30; disk[p++] = 0; big(p, 1, 1, 0, i); disk[q + 1] = p - q - 2; } else if (k == 4 && i < 240) big(p, 6, 2, 0, i); else big(p, k == 0 ? 5 : k == 1 ? 2 : 0x80, k == 0 ? 0 : k, 0, i); } if (in) { unsigned m = p - at - 4; disk[at + 2] = m >> 8; disk[at + 3] = m; } }
    size = p; good = all(); cx_assert(good, "the file is well formed"); ran = true; run("--dump", "f");
}
