#include <cstdarg>
#include "db.h"
#include <crefl/link.h>
#include <crefl/dump.h>
// T01: crefltool does what its command line says and its exit status tells whether it succeeded. Library calls are replaced by recorders that may fail.
int cx_target_main_crefltool(int argc, const char **argv);
static const char *args[8]; static int nargs; static bool failed; static unsigned reads, writes, merges, dumps, stats, fmts, opened, closed; static int fmt; static decl_db *in[4], *out; static unsigned want; // 0 usage 1 dump 2 stats 3 merge 4 emit
static uint8_t image[70000]; static size_t imageSize; static char handle; static bool badWrite;
CX_STUB(T01, int, crefl_db_read_file)(decl_db *db, const char *f) { unsigned first = want == 3 || want == 4 ? 3 : 2; cx_assert(want != 0 && f == args[first + reads], "the inputs are read in order"); in[reads++] = db; if (cx_bool("read fails")) { failed = true; return cx_bool("how") ? -1 : 5; } return 0; }
CX_STUB(T01, int, crefl_db_write_file)(decl_db *db, const char *f) { cx_assert(want == 3 && merges == 1 && f == args[2] && db == out && !failed, "the merged database is written to the output"); writes++; if (cx_bool("write fails")) { failed = true; return cx_bool("how") ? -1 : 5; } return 0; }
CX_STUB(T01, int, crefl_link_merge)(decl_db *db, const char *name, decl_db **src, size_t n) { cx_assert(want == 3 && !failed && reads == n && n == nargs - 3 && name == args[2], "all inputs are merged"); for (size_t i = 0; i < n; i++) cx_assert(src[i] == in[i], "all inputs are merged, in order"); for (size_t i = 0; i < n; i++) cx_assert(db != in[i], "the result is a database of its own"); out = db; merges++; if (cx_bool("merge fails")) { failed = true; return -1; } return 0; }
CX_STUB(T01, void, crefl_db_dump)(decl_db *db) { cx_assert(want == 1 && reads == 1 && !failed && db == in[0], "the input is dumped"); dumps++; cx_assert(fmts > 0, "the format is that of the option"); }
CX_STUB(T01, void, crefl_db_set_dump_fmt)(int f) { cx_assert(f == fmt, "the format is that of the option"); fmts++; }
CX_STUB(T01, void, crefl_db_dump_stats)(decl_db *db) { cx_assert(want == 2 && reads == 1 && !failed && db == in[0], "the statistics are those of the input"); stats++; }
CX_STUB(T01, size_t, crefl_db_size)(decl_db *) { return imageSize; }
CX_STUB(T01, int, crefl_db_write_mem)(decl_db *db, uint8_t *p, size_t n) { cx_assert(want == 4 && reads == 1 && !failed && db == in[0] && n == imageSize, "the input is emitted"); for (size_t i = 0; i < n; i++) p[i] = image[i]; return 0; }
CX_STUB(T01, FILE*, fopen)(const char *f, const char *m) { cx_assert(want == 4 && f == args[2] && m[0] == 'w' && opened == closed, "the output is the file named"); if (cx_bool("open fails")) { failed = true; return 0; } opened++; return (FILE*)&handle; }
CX_STUB(T01, int, ferror)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); return failed; }
CX_STUB(T01, int, fclose)(FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is closed once"); closed++; if (cx_bool("close fails")) { failed = true; return -1; } return 0; }
CX_STUB(T01, int, fprintf)(FILE *f, const char *fm, ...) { if (f == stderr) return 1; cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); if (badWrite) { failed = true; return -1; } va_list ap; va_start(ap, fm); vprintf(fm, ap); va_end(ap); return 1; }
CX_STUB(T01, size_t, fwrite)(const void *p, size_t sz, size_t n, FILE *f) { cx_assert(f == (FILE*)&handle && opened == closed + 1, "the file is open"); if (badWrite) { failed = true; return 0; } for (size_t i = 0; i < sz * n; i++) putchar(((const char*)p)[i]); return n; }
// the emitted source: an array of the octets of the image, and its size
static uint64_t pos; static char at() { return (char)cx_out_at(pos); } static bool more() { return pos < cx_out_len(); }
static void skip() { while (more() && (at() == ' ' || at() == '\n' || at() == '\t')) pos++; }
static void expect(const char *s) { skip(); for (; *s; s++) { if (*s == ' ') { skip(); continue; } cx_assert(more() && at() == *s, "the emitted source declares the data and its size"); pos++; } }
static unsigned hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static void emitted() {
    pos = 0; while (more() && at() == '#') { while (more() && at() != '\n') pos++; skip(); } expect("const unsigned char __crefl_main_data[] = {"); size_t n = 0;
    for (skip(); more() && at() != '}'; skip()) { expect("0x"); unsigned v = 0, k = 0; for (; hexv(at()) < 16; pos++, k++) v = v * 16 + hexv(at()); cx_assert(k >= 1 && n < imageSize && v == image[n], "the emitted data are the octets of the image, in order"); n++; skip(); if (at() == ',') pos++; else cx_assert(at() == '}', "octets are separated by commas"); }
    cx_assert(n == imageSize, "all octets are emitted"); expect("}; const size_t __crefl_main_size = sizeof(__crefl_main_data);"); skip(); cx_assert(!more(), "nothing follows");
}
CX_STUB(T01, void, exit)(int code) {
    bool done = want == 1 ? dumps == 1 : want == 2 ? stats == 1 : want == 3 ? writes == 1 : want == 4 ? opened == 1 : false; cx_assert((code == 0) == (want != 0 && !failed), "the exit status is zero exactly when the command succeeded"); if (code == 0) { cx_assert(done && opened == closed, "success means that the command was carried out"); if (want == 4) emitted(); } else cx_assert(want == 0 || failed, "a failure has a cause"); cx_done();
}
static void run(const char *a1, const char *a2 = 0, const char *a3 = 0, const char *a4 = 0, const char *a5 = 0) { cx_set("capture", 1); args[0] = "crefltool"; args[1] = a1; args[2] = a2; args[3] = a3; args[4] = a4; args[5] = a5; nargs = 1; while (nargs < 6 && args[nargs]) nargs++; static const char *argv[8]; for (int i = 0; i < nargs; i++) argv[i] = args[i]; if (want == 4 && cx_bool("write fails")) badWrite = true; int code = cx_target_main_crefltool(nargs, argv); exit(code); }
static const char *DUMP[8] = { "--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all" };
static const int FMT[8] = { crefl_db_dump_std, crefl_db_dump_fqn, crefl_db_dump_sum, crefl_db_dump_all, crefl_db_dump_ext, crefl_db_dump_ext_fqn, crefl_db_dump_ext_sum, crefl_db_dump_ext_all };
CX_DRIVER(T01, dump, 24) { fmt = FMT[cell % 8]; unsigned n = cell / 8; want = n == 1; run(DUMP[cell % 8], n > 0 ? "in" : 0, n > 1 ? "more" : 0); }
CX_DRIVER(T01, stats, 3) { want = cell == 1 ? 2 : 0; run("--stats", cell > 0 ? "in" : 0, cell > 1 ? "more" : 0); }
CX_DRIVER(T01, merge, 5) { want = cell >= 2 ? 3 : 0; run("--merge", cell > 0 ? "out" : 0, cell > 1 ? "a" : 0, cell > 2 ? "b" : 0, cell > 3 ? "c" : 0); }
CX_DRIVER(T01, emit, 68) { imageSize = cell < 64 ? cell : 64 + cell % 4; for (unsigned i = 0; i < imageSize; i++) image[i] = (uint8_t)(i * 37 + cell * 83 + (i > 3 ? 0 : 9)); if (cell % 2 && imageSize > 2) image[imageSize - 1] = 0, image[1] = 255; want = 4; run("--emit", "out", "in"); }
CX_DRIVER(T01, emit_large, 16) { static const unsigned N[16] = { 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 4096, 4100 }; cx_set("states", 4000000); cx_set("iter", 300000); imageSize = N[cell]; for (unsigned i = 0; i < imageSize; i++) image[i] = (uint8_t)(i * 37 + i / 256 * 11 + cell * 83); want = 4; run("--emit", "out", "in"); }
CX_DRIVER(T01, emit_args, 3) { want = 0; run("--emit", cell > 0 ? "out" : 0, cell > 1 ? "in" : 0, cell > 1 ? "more" : 0); }
CX_DRIVER(T01, usage, 10) { static const char *U[10] = { 0, "", "-", "--", "--dumps", "--dum", "dump", "--merg", "--emits", "-h" }; want = 0; run(U[cell], "a", "b", "c"); }
CX_DRIVER(T01, other, 16) { want = 0; cx_set("disj", 512); char *s = (char*)cx_object(cell + 1, 2, "option"); static const char *K[3] = { "--stats", "--emit", "--merge" }; s[cell] = 0; for (int i = 0; i < 8; i++) if (!strcmp(s, DUMP[i])) cx_stop(); for (int i = 0; i < 3; i++) if (!strcmp(s, K[i])) cx_stop(); run(s, "a"); }
