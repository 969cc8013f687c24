#include <cerrno>
#include "db.h"
#include <crefl/util.h>
// U01: formatted strings, base names, and whole-file transfers, for every length and every failure.
// -- formatted strings: text of any letters, lengths around the initial buffer and its multiples
static const unsigned LEN[32] = { 0, 1, 2, 15, 16, 31, 100, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 383, 384, 500, 509, 510, 511, 512, 513, 514, 600, 1030 };
static char *text(unsigned n) { char *s = (char*)cx_object(n + 1, 2, "text"); for (unsigned i = 0; i < n; i++) cx_assume(s[i] != 0); s[n] = 0; cx_readonly(s); return s; }
static std::string viaList(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string r = string_vprintf(fmt, ap); va_end(ap); return r; }
CX_DRIVER(U01, formatted, 64) {
    unsigned n = LEN[cell % 32]; char *s = text(n); { std::string r = cell < 32 ? string_printf("%s", s) : viaList("%s", s); cx_assert(r.size() == n, "a formatted string has the length of the text"); for (unsigned i = 0; i < n; i++) cx_assert(r[i] == s[i], "a formatted string is the text"); cx_assert(r.c_str()[n] == 0, "a formatted string is terminated"); }
    if (n < 600) { std::string r = cell < 32 ? string_printf("%u=%s.%c", 42u, s, 'z') : viaList("%u=%s.%c", 42u, s, 'z'); cx_assert(r.size() == n + 5 && r[0] == '4' && r[1] == '2' && r[2] == '=' && r[n + 3] == '.' && r[n + 4] == 'z', "every argument is formatted once, in order"); for (unsigned i = 0; i < n; i++) cx_assert(r[i + 3] == s[i], "a formatted string is the text"); }
    cx_assert(cx_heap_live() == 0, "nothing is leaked");
}
// long texts, of any content where they are longer than the buffer and of known content beyond
CX_DRIVER(U01, formatted_large, 20) {
    static const unsigned N[10] = { 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000, 16384, 70000 }; cx_set("states", 4000000); cx_set("iter", 300000); unsigned n = N[cell % 10]; char *s = (char*)cx_object(n + 1, 0, "text"); for (unsigned i = 0; i < n; i++) s[i] = (char)('a' + (i + i / 26) % 26); s[n] = 0; cx_readonly(s);
    { std::string r = cell < 10 ? string_printf("%s", s) : viaList("<%s>%d", s, -7); unsigned k = cell < 10 ? 0 : 1; cx_assert(r.size() == n + k * 4, "a formatted string has the length of the text"); for (unsigned i = 0; i < n; i++) cx_assert(r[i + k] == s[i], "a formatted string is the text"); if (k) cx_assert(r[0] == '<' && r[n + 1] == '>' && r[n + 2] == '-' && r[n + 3] == '7', "every argument is formatted once, in order"); cx_assert(r.c_str()[r.size()] == 0, "a formatted string is terminated"); }
    cx_assert(cx_heap_live() == 0, "nothing is leaked");
}
// -- base names
CX_DRIVER(U01, base, 7) {
    cx_set("disj", 256); char *s = text(cell); unsigned from = 0; for (unsigned i = 0; i < cell; i++) { if (s[i] == '/') from = i + 1; else if (s[i] == '\\') from = i + 1; } { std::string r = crefl_basename(s); cx_assert(r.size() == cell - from, "the base name follows the last separator"); for (unsigned i = from; i < cell; i++) cx_assert(r[i - from] == s[i], "the base name follows the last separator"); } cx_assert(cx_heap_live() == 0, "nothing is leaked");
}
// -- files: a stand-in records what reaches the disk; any call may fail, any transfer may be short
static uint8_t *disk; static uint64_t diskSize, written, nread; static bool failed, exists, truncated, stuck, ateof; static unsigned opened, closed; static const char *mode; static char handle;
static uint64_t shortened(uint64_t k) { if (k < 64) return cx_choose(0, k - 1); return cx_bool("by one") ? k - 1 : cx_bool("nothing") ? 0 : k / 2; }
CX_STUB(U01, FILE*, fopen)(const char *, const char *m) { cx_assert(opened == closed, "one file is open at a time"); if (!cx_bool("opens")) { failed = true; return 0; } opened++; if (m[0] == 'w') truncated = true; mode = m; return (FILE*)&handle; }
CX_STUB(U01, int, fclose)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the open file is closed once"); closed++; if (!cx_bool("closes")) { if (mode[0] == 'w') failed = true; return -1; } return 0; }
CX_STUB(U01, int, fileno)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); return 3; }
CX_STUB(U01, int, fstat)(int fd, struct stat *st) { cx_assert(fd == 3, "the open file is queried"); if (!cx_bool("stats")) { failed = true; return -1; } memset(st, 0, sizeof *st); st->st_size = diskSize; return 0; }
CX_STUB(U01, size_t, fread)(void *p, size_t sz, size_t n, FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1 && mode[0] == 'r', "the file is open for reading"); uint64_t k = sz * n; if (stuck) return 0; if (k > diskSize - nread) { k = diskSize - nread; ateof = true; } if (k && cx_bool("short read")) { k = shortened(k); failed = stuck = true; } for (uint64_t i = 0; i < k; i++) ((uint8_t*)p)[i] = disk[nread + i]; nread += k; return sz ? k / sz : 0; }
CX_STUB(U01, int, ferror)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); return stuck; }
CX_STUB(U01, int, feof)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); return ateof; }
CX_STUB(U01, int, stat)(const char *, struct stat *st) { if (!cx_bool("stats")) { failed = true; return -1; } memset(st, 0, sizeof *st); st->st_size = diskSize; return 0; }
CX_STUB(U01, int, fseek)(FILE *f, long off, int whence) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); if (!cx_bool("seeks")) { failed = true; return -1; } nread = (whence == 2 ? diskSize : whence == 1 ? nread : 0) + off; ateof = false; return 0; }
CX_STUB(U01, long, ftell)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); if (!cx_bool("tells")) { failed = true; return -1; } return nread; }
CX_STUB(U01, void, rewind)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); nread = 0; ateof = false; }
CX_STUB(U01, size_t, fwrite)(const void *p, size_t sz, size_t n, FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1 && mode[0] == 'w', "the file is open for writing"); uint64_t k = sz * n; if (stuck) return 0; if (k && cx_bool("short write")) { k = shortened(k); failed = stuck = true; } for (uint64_t i = 0; i < k; i++) disk[written + i] = ((const uint8_t*)p)[i]; written += k; return sz ? k / sz : 0; }
static void disk_of(uint64_t n, uint64_t room, int init) { disk = (uint8_t*)cx_object(room, init, "disk"); diskSize = n; }
static void end() { cx_assert(opened == closed, "every opened file is closed"); cx_assert(cx_heap_live() == 0, "nothing is leaked"); }
CX_DRIVER(U01, read_file, 10) { cx_set("disj", 256); disk_of(cell, cell, 2); { std::vector<uint8_t> b; if (cell & 1) b.push_back(7); bool bad = crefl_read_file(b, "f") != 0; cx_assert(bad == failed, "reading a file fails exactly when a step fails"); if (!bad) { cx_assert(b.size() == cell, "the whole file is read"); for (unsigned i = 0; i < cell; i++) cx_assert(b[i] == disk[i], "the whole file is read"); cx_assert(mode[0] == 'r' && mode[1] == 'b', "files are read as octets"); } } end(); }
CX_DRIVER(U01, write_file, 10) { cx_set("disj", 256); disk_of(0, 16, 0); { std::vector<uint8_t> b; for (unsigned i = 0; i < cell; i++) b.push_back(cx_u8("octet")); bool bad = crefl_write_file(b, "f") != 0; cx_assert(bad == failed, "writing a file fails exactly when a step fails"); if (!bad) { cx_assert(written == cell && truncated, "the whole buffer is written"); for (unsigned i = 0; i < cell; i++) cx_assert(b[i] == disk[i], "the whole buffer is written"); cx_assert(mode[1] == 'b', "files are written as octets"); } } end(); }
// long files: sizes about the chunks that a transfer could be cut into; every step may fail
static const unsigned FILES[12] = { 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 70000 };
CX_DRIVER(U01, read_large, 12) { cx_set("disj", 256); cx_set("states", 8000000); cx_set("iter", 300000); unsigned n = FILES[cell]; disk_of(n, n, 1); for (unsigned i = 0; i < n; i++) disk[i] = i * 13 + i / 256; cx_readonly(disk); { std::vector<uint8_t> b; if (cell & 1) b.push_back(7); bool bad = crefl_read_file(b, "f") != 0; cx_assert(bad == failed, "reading a file fails exactly when a step fails"); if (!bad) { cx_assert(b.size() == n && nread == n, "the whole file is read"); for (unsigned i = 0; i < n; i++) cx_assert(b[i] == disk[i], "the whole file is read"); } } end(); }
CX_DRIVER(U01, write_large, 12) { cx_set("disj", 256); cx_set("states", 8000000); cx_set("iter", 300000); unsigned n = FILES[cell]; disk_of(0, n + 16, 1); { std::vector<uint8_t> b(n); for (unsigned i = 0; i < n; i++) b[i] = i * 13 + i / 256; bool bad = crefl_write_file(b, "f") != 0; cx_assert(bad == failed, "writing a file fails exactly when a step fails"); if (!bad) { cx_assert(written == n && truncated, "the whole buffer is written"); for (unsigned i = 0; i < n; i++) cx_assert(b[i] == disk[i], "the whole buffer is written"); } } end(); }
// -- database files: the image functions are those of M01 and M02
static unsigned loads; static int verdict;
CX_STUB(U01, int, crefl_db_read_mem)(decl_db*, const uint8_t *p, size_t n) { loads++; cx_assert(!failed, "only a file read completely is loaded"); cx_assert(n == diskSize, "the whole file is loaded"); for (uint64_t i = 0; i < diskSize; i++) cx_assert(p[i] == disk[i], "the whole file is loaded"); return verdict; }
CX_DRIVER(U01, db_read_file, 10) { cx_set("disj", 256); disk_of(cell, cell, 2); decl_db *db = crefl_db_new(); verdict = cx_bool("refused") ? -1 : 0; int r = crefl_db_read_file(db, "f"); cx_assert((r != 0) == (failed || verdict), "loading a file fails exactly when reading it or its image does"); cx_assert(failed || loads == 1, "the image is loaded once"); crefl_db_destroy(db); end(); }
CX_DRIVER(U01, db_read_large, 12) { cx_set("disj", 256); cx_set("states", 8000000); cx_set("iter", 300000); unsigned n = FILES[cell]; disk_of(n, n, 1); for (unsigned i = 0; i < n; i++) disk[i] = i * 7 + i / 256; cx_readonly(disk); decl_db *db = crefl_db_new(); verdict = cx_bool("refused") ? -1 : 0; int r = crefl_db_read_file(db, "f"); cx_assert((r != 0) == (failed || verdict), "loading a file fails exactly when reading it or its image does"); cx_assert(failed || loads == 1, "the image is loaded once"); crefl_db_destroy(db); end(); }
CX_DRIVER(U01, db_write_file, 3) {
    cx_set("disj", 256); decl_db *db = fresh(); for (unsigned i = 0; i < cell; i++) { decl_ref r = crefl_decl_new(db, cx_u32("tag")); crefl_decl_ptr(r)->_quantity = cx_u64("quantity"); } if (cell) crefl_name_new(db, "n"); db->root_element = db->decl_builtin; uint64_t n = crefl_db_size(db); disk_of(0, n, 0);
    uint8_t *img = (uint8_t*)cx_object(n, 0, "image"); cx_assert(crefl_db_write_mem(db, img, n) == 0, "the image fits"); int r = crefl_db_write_file(db, "f"); cx_assert((r != 0) == failed, "saving to a file fails exactly when a step fails"); if (!r) { cx_assert(written == n && truncated, "the whole image is written"); for (uint64_t i = 0; i < n; i++) cx_assert(disk[i] == img[i], "the whole image is written"); } crefl_db_destroy(db); end();
}
