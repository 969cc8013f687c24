#include "db.h"
// M01: loading a database image accepts exactly the well formed ones and leaves every index in range.
struct Img { uint8_t *p; size_t n; };
static Img image(size_t size) { Img m = { (uint8_t*)cx_object(size, 2, "image"), size }; cx_readonly(m.p); return m; }
static uint32_t g32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static bool magic_ok(const uint8_t *p) { static const char M[] = "crefl000"; bool ok = true; for (int i = 0; i < 8; i++) ok &= p[i] == (uint8_t)M[i]; return ok; }
static void finish(decl_db *db) { crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "destroying the database frees it"); }
// images too short for a header, of any content
CX_DRIVER(M01, short_image, 20) { Img m = image(cell); decl_db *db = crefl_db_new(); cx_assert(crefl_db_read_mem(db, m.p, cell) == -1, "an image shorter than its header is refused"); finish(db); }
// images whose declared tables do not fit
CX_DRIVER(M01, truncated, 24) {
    size_t room = cell < 16 ? cell * 9 : cell < 20 ? 32 * (cell - 15) : 32 * (cell - 19) - 1; Img m = image(HDR + room); decl_db *db = crefl_db_new(); uint64_t c = g32(m.p + 8), n = g32(m.p + 12); cx_assume(c != 0); cx_assume(c * NODE + n > room);
    cx_assert(crefl_db_read_mem(db, m.p, m.n) == -1, "an image shorter than the tables it declares is refused"); finish(db);
}
// any magic
CX_DRIVER(M01, magic, 8) { Img m = image(HDR + NODE + 1); decl_db *db = crefl_db_new(); cx_assume(m.p[cell] != (uint8_t)"crefl000"[cell]); cx_assert(crefl_db_read_mem(db, m.p, m.n) == -1, "an image without the magic is refused"); finish(db); }
// images whose tables fit, with any node and name content, any root and trailing octets
CX_DRIVER(M01, complete, 72) {
    cx_set("disj", 4096); unsigned cnt = 1 + cell % 3; cell /= 3; unsigned nsz = cell % 6, extra = cell / 6; size_t size = HDR + NODE * cnt + nsz + (extra == 3 ? 40 : extra); uint8_t *p = (uint8_t*)cx_object(size, 2, "image"); for (int i = 0; i < 8; i++) p[i] = "crefl000"[i]; for (int i = 0; i < 4; i++) { p[8 + i] = i ? 0 : cnt; p[12 + i] = i ? 0 : nsz; } cx_readonly(p);
    decl_db *ref = fresh(); size_t root = ref->decl_offset, nm = ref->name_offset; uint32_t r = g32(p + 16); decl_db *db = crefl_db_new(); int ret = crefl_db_read_mem(db, p, size);
    bool term = !nsz || p[HDR + NODE * cnt + nsz - 1] == 0, good = term && r == root;
    if (!good) cx_assert(ret == -1, "an image with unterminated names or other builtin types is refused");
    else {
        for (unsigned j = 0; j < cnt; j++) { const uint8_t *q = p + HDR + NODE * j; if (g32(q + 8) >= nm + nsz) { good = false; break; } if (g32(q + 12) >= root + cnt) { good = false; break; } if (g32(q + 16) >= root + cnt) { good = false; break; } if (g32(q + 20) >= root + cnt) { good = false; break; } }
        cx_assert(ret == (good ? 0 : -1), "an image is accepted exactly when every node index and name offset is in range");
        if (ret == 0) {
            cx_assert(db->decl_offset == root + cnt && db->decl_builtin == root && db->root_element == root && db->name_offset == nm + nsz, "an accepted image extends the builtin types by its tables"); cx_assert(db->decl_size >= db->decl_offset && db->name_size >= db->name_offset, "the tables have the announced size");
            for (unsigned j = 0; j < cnt; j++) { const uint8_t *q = p + HDR + NODE * j; decl_node *d = db->decl + root + j; cx_assert(d->_tag == g32(q) && d->_props == g32(q + 4) && d->_name == g32(q + 8) && d->_next == g32(q + 12) && d->_link == g32(q + 16) && d->_attr == g32(q + 20) && d->_quantity == (g32(q + 24) | (uint64_t)g32(q + 28) << 32), "each node is that of the image");
                cx_assert(d->_name < db->name_offset && d->_next < db->decl_offset && d->_link < db->decl_offset && d->_attr < db->decl_offset, "every index is in range"); }
            for (unsigned j = 0; j < nsz; j++) cx_assert((uint8_t)db->name[nm + j] == p[HDR + NODE * cnt + j], "the names are those of the image");
            for (unsigned j = 0; j < root; j++) node_eq(db->decl + j, ref->decl + j, "the builtin types are kept"); for (unsigned j = 0; j < nm; j++) cx_assert(db->name[j] == ref->name[j], "the builtin names are kept");
            cx_assert(db->name[db->name_offset - 1] == 0, "every name terminates within the table");
        }
    }
    crefl_db_destroy(ref); finish(db);
}
// an image without declarations leaves an empty database
CX_DRIVER(M01, empty, 1) { Img m = image(HDR); decl_db *db = crefl_db_new(); cx_assume(magic_ok(m.p)); cx_assume(g32(m.p + 8) == 0); cx_assert(crefl_db_read_mem(db, m.p, m.n) == 0 && db->decl_offset == 1 && db->decl_builtin == 1, "an image without declarations is an empty database"); finish(db); }
// reading into a database that already holds declarations is refused
CX_DRIVER(M01, reload, 2) {
    uint8_t *p = (uint8_t*)cx_object(HDR + NODE + 2, 1, "image"); decl_db *db = fresh(); for (int i = 0; i < 8; i++) p[i] = "crefl000"[i]; p[8] = 1; p[12] = 2; uint32_t r = cell ? (uint32_t)db->decl_offset : cx_u32("root"); for (int i = 0; i < 4; i++) p[16 + i] = r >> (8 * i);
    int ret = crefl_db_read_mem(db, p, HDR + NODE + 2); if (cell) cx_assert(ret == -1, "loading over existing declarations is refused"); for (unsigned i = 0; i < db->decl_offset; i++) { decl_node *d = db->decl + i; cx_assert(d->_name < db->name_offset && d->_link < db->decl_offset && d->_next < db->decl_offset, "every index is in range"); } finish(db);
}
// large images, whose tables are larger than those made for an empty database: one node and one name octet of any content
static const unsigned BIG[12][2] = { { 60, 700 }, { 100, 4 }, { 107, 100 }, { 108, 0 }, { 109, 900 }, { 128, 1023 }, { 129, 1024 }, { 200, 1025 }, { 257, 3000 }, { 300, 40000 }, { 700, 9 }, { 5, 66000 } };
CX_DRIVER(M01, large, 36) {
    cx_set("states", 1 << 24); cx_set("iter", 1 << 20); unsigned cnt = BIG[cell % 12][0], nsz = BIG[cell % 12][1], at = cell / 12 == 0 ? 0 : cell / 12 == 1 ? cnt / 2 : cnt - 1; size_t size = HDR + NODE * cnt + nsz; uint8_t *p = (uint8_t*)cx_object(size, 0, "image"); p[HDR + NODE * cnt + nsz - 1] = 0; for (int i = 0; i < 8; i++) p[i] = "crefl000"[i]; auto w = [&](size_t o, uint32_t v) { for (int i = 0; i < 4; i++) p[o + i] = v >> (8 * i); };
    decl_db *ref = fresh(); uint32_t root = ref->decl_offset, nm = ref->name_offset; w(8, cnt); w(12, nsz); w(16, root); for (unsigned j = 0; j < cnt; j++) { w(HDR + NODE * j, 1 + j % 9); w(HDR + NODE * j + 8, j % 3 ? nm + (nsz ? j % nsz : -1) : nm + nsz - 1); w(HDR + NODE * j + 12, j + 1 < cnt ? root + j + 1 : 0); w(HDR + NODE * j + 16, root + cnt - 1 - j); w(HDR + NODE * j + 20, j); w(HDR + NODE * j + 24, j * 70001); w(HDR + NODE * j + 28, j); w(HDR + NODE * j + 4, j * 9); }
    for (unsigned j = 0; j + 1 < nsz; j++) p[HDR + NODE * cnt + j] = 'a' + j % 26; for (unsigned j = 0; j < NODE; j++) p[HDR + NODE * at + j] = cx_u8("node"); cx_readonly(p); decl_db *db = crefl_db_new(); int ret = crefl_db_read_mem(db, p, size); const uint8_t *q = p + HDR + NODE * at;
    bool good = g32(q + 8) < nm + nsz && g32(q + 12) < root + cnt && g32(q + 16) < root + cnt && g32(q + 20) < root + cnt; cx_assert(ret == (good ? 0 : -1), "an image is accepted exactly when every node index and name offset is in range");
    if (good) { cx_assert(db->decl_offset == root + cnt && db->decl_builtin == root && db->root_element == root && db->name_offset == nm + nsz, "an accepted image extends the builtin types by its tables"); cx_assert(db->decl_size >= db->decl_offset && db->name_size >= db->name_offset, "the tables have the announced size");
        for (unsigned j = 0; j < cnt; j++) { const uint8_t *q = p + HDR + NODE * j; decl_node *d = db->decl + root + j; cx_assert(d->_tag == g32(q) && d->_props == g32(q + 4) && d->_name == g32(q + 8) && d->_next == g32(q + 12) && d->_link == g32(q + 16) && d->_attr == g32(q + 20) && d->_quantity == (g32(q + 24) | (uint64_t)g32(q + 28) << 32), "each node is that of the image"); }
        for (unsigned j = 0; j < nsz; j++) cx_assert((uint8_t)db->name[nm + j] == p[HDR + NODE * cnt + j], "the names are those of the image"); for (unsigned j = 0; j < root; j++) node_eq(db->decl + j, ref->decl + j, "the builtin types are kept"); for (unsigned j = 0; j < nm; j++) cx_assert(db->name[j] == ref->name[j], "the builtin names are kept");
    }
    crefl_db_destroy(ref); finish(db);
}
