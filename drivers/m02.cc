#include "db.h"
// M02: saving and loading are inverse, in memory and through files; M03: tables grow without losing anything.
static decl_db *some(unsigned cnt, unsigned nsz) {
    decl_db *db = fresh(); size_t root = db->decl_offset, nm = db->name_offset; char nb[8]; for (unsigned i = 0; i + 1 < nsz; i++) { nb[i] = (char)cx_u8("letter"); cx_assume(nb[i] != 0); } if (nsz) { nb[nsz - 1] = 0; cx_assert(crefl_name_new(db, nb) == nm, "a new name is appended"); }
    for (unsigned j = 0; j < cnt; j++) { decl_ref r = crefl_decl_new(db, cx_u32("tag")); decl_node *d = crefl_decl_ptr(r); d->_props = cx_u32("props"); d->_name = cx_u32("name"); d->_next = cx_u32("next"); d->_link = cx_u32("link"); d->_attr = cx_u32("attr"); d->_quantity = cx_u64("quantity");
        cx_assume(d->_name < nm + nsz && d->_next < root + cnt && d->_link < root + cnt && d->_attr < root + cnt); }
    db->root_element = root; return db;
}
static void same(decl_db *a, decl_db *b) {
    cx_assert(a->decl_offset == b->decl_offset && a->decl_builtin == b->decl_builtin && a->name_offset == b->name_offset && a->name_builtin == b->name_builtin && a->root_element == b->root_element, "the loaded tables have the sizes and root of those saved");
    for (size_t i = 0; i < a->decl_offset; i++) node_eq(a->decl + i, b->decl + i, "every node is restored"); for (size_t i = 0; i < a->name_offset; i++) cx_assert(a->name[i] == b->name[i], "every name is restored");
}
CX_DRIVER(M02, memory, 40) {
    cx_set("disj", 256); unsigned cnt = 1 + cell % 4, nsz = cell / 4 % 5, extra = cell / 20; if (nsz == 1) cx_done(); decl_db *db = some(cnt, nsz); size_t sz = crefl_db_size(db); cx_assert(sz == HDR + NODE * cnt + nsz, "the announced size is header, nodes and names, without the builtin types");
    uint8_t *p = (uint8_t*)cx_object(sz + extra, 0, "image"); cx_assert(crefl_db_write_mem(db, p, sz + extra) == 0, "saving succeeds when the image fits"); cx_readonly(p); cx_assert(crefl_db_magic(p) == 0, "the image starts with the magic");
    decl_db *l = crefl_db_new(); cx_assert(crefl_db_read_mem(l, p, sz) == 0, "a saved image loads"); same(db, l);
    uint8_t *q = (uint8_t*)cx_object(sz, 0, "image 2"); cx_assert(crefl_db_size(l) == sz && crefl_db_write_mem(l, q, sz) == 0, "a loaded database saves"); for (size_t i = 0; i < sz; i++) cx_assert(p[i] == q[i], "saving a loaded database reproduces the image");
    crefl_db_destroy(db); crefl_db_destroy(l); cx_assert(cx_heap_live() == 0, "destroying the databases frees them");
}
// too little room: refused, nothing written
CX_DRIVER(M02, no_room, 20) { unsigned cnt = 1 + cell % 4, nsz = cell / 4; if (nsz == 1) cx_done(); decl_db *db = some(cnt, nsz); size_t sz = crefl_db_size(db); uint64_t room = cx_u64("room"); cx_assume(room < sz); uint8_t *p = (uint8_t*)cx_object(sz, 2, "image"); cx_readonly(p); cx_assert(crefl_db_write_mem(db, p, room) == -1, "saving into too little room is refused"); }
// the image layout: little-endian header and nodes
CX_DRIVER(M02, layout, 4) {
    decl_db *db = some(2, 3); uint8_t p[HDR + 2 * NODE + 3]; cx_assert(crefl_db_write_mem(db, p, sizeof p) == 0, "saving succeeds when the image fits"); auto u = [&](unsigned o) { return p[o] | p[o + 1] << 8 | p[o + 2] << 16 | (uint32_t)p[o + 3] << 24; };
    for (int i = 0; i < 8; i++) cx_assert(p[i] == (uint8_t)"crefl000"[i], "the image starts with the magic"); cx_assert(u(8) == 2 && u(12) == 3 && u(16) == db->decl_builtin, "the header gives node count, name table size and root");
    for (unsigned j = 0; j < 2; j++) { decl_node *d = db->decl + db->decl_builtin + j; unsigned o = HDR + NODE * j; cx_assert(u(o) == d->_tag && u(o + 4) == d->_props && u(o + 8) == d->_name && u(o + 12) == d->_next && u(o + 16) == d->_link && u(o + 20) == d->_attr && u(o + 24) == (uint32_t)d->_quantity && u(o + 28) == (uint32_t)(d->_quantity >> 32), "nodes follow in index order"); }
    for (unsigned j = 0; j < 3; j++) cx_assert(p[HDR + 2 * NODE + j] == (uint8_t)db->name[db->name_builtin + j], "names follow the nodes");
}
// large databases: every node and name octet is saved and restored
CX_DRIVER(M02, large, 10) {
    static const unsigned BIG[10][2] = { { 60, 700 }, { 100, 4 }, { 107, 100 }, { 109, 900 }, { 128, 1023 }, { 129, 1024 }, { 257, 3000 }, { 300, 20000 }, { 700, 9 }, { 5, 66000 } }; cx_set("states", 1 << 24); cx_set("iter", 1 << 20); unsigned cnt = BIG[cell][0], nsz = BIG[cell][1];
    decl_db *db = fresh(); size_t root = db->decl_offset, nm = db->name_offset; char *nb = (char*)malloc(nsz); for (unsigned i = 0, k = 0; i < nsz; i++) { nb[i] = 'a' + i % 26; if (i + 1 == nsz || i % 97 == 96) { nb[i] = 0; crefl_name_new(db, nb + k); k = i + 1; } } free(nb); cx_assert(db->name_offset == nm + nsz, "new names are appended");
    for (unsigned j = 0; j < cnt; j++) { decl_ref r = crefl_decl_new(db, 1 + j % 9); decl_node *d = crefl_decl_ptr(r); d->_props = j * 9; d->_name = nm + j % nsz; d->_next = j + 1 < cnt ? root + j + 1 : 0; d->_link = root + cnt - 1 - j; d->_attr = j; d->_quantity = j % 5 ? j * 70001 : cx_u64("quantity"); } db->root_element = root;
    size_t sz = crefl_db_size(db); cx_assert(sz == HDR + NODE * cnt + nsz, "the announced size is header, nodes and names, without the builtin types"); uint8_t *p = (uint8_t*)cx_object(sz, 0, "image"); cx_assert(crefl_db_write_mem(db, p, sz) == 0, "saving succeeds when the image fits"); cx_readonly(p);
    for (unsigned j = 0; j < cnt; j++) { decl_node *d = db->decl + root + j; const uint8_t *q = p + HDR + NODE * j; auto u = [&](unsigned o) { return q[o] | q[o + 1] << 8 | q[o + 2] << 16 | (uint32_t)q[o + 3] << 24; }; cx_assert(u(0) == d->_tag && u(4) == d->_props && u(8) == d->_name && u(12) == d->_next && u(16) == d->_link && u(20) == d->_attr && (u(24) | (uint64_t)u(28) << 32) == d->_quantity, "nodes follow in index order"); }
    for (unsigned j = 0; j < nsz; j++) cx_assert(p[HDR + NODE * cnt + j] == (uint8_t)db->name[nm + j], "names follow the nodes"); decl_db *l = crefl_db_new(); cx_assert(crefl_db_read_mem(l, p, sz) == 0, "a saved image loads"); same(db, l); crefl_db_destroy(db); crefl_db_destroy(l); cx_assert(cx_heap_live() == 0, "destroying the databases frees them");
}
// counts that need more than 16 bits, and sizes about 2^32: the header and the place of each part
CX_DRIVER(M02, counts, 20) {
    static const uint64_t N[10][2] = { { 65535, 10 }, { 65536, 65535 }, { 65537, 65536 }, { 70000, 100000 }, { 131072, 5 }, { 1 << 20, 1 << 24 }, { 1 << 24, 9 }, { 3, 1ull << 31 }, { 134217728, 7 }, { 200000000, 4000000000ull } }; uint64_t n = N[cell % 10][0], k = N[cell % 10][1], b = cell < 10 ? 1 : 19, nb = cell < 10 ? 1 : 101;
    decl_db *db = (decl_db*)cx_object(sizeof(decl_db), 1, "db"); db->decl_builtin = b; db->decl_offset = n + b; db->decl_size = n + b; db->name_builtin = nb; db->name_offset = db->name_size = k + nb; db->root_element = b; db->decl = (decl_node*)cx_object((n + b) * NODE, 2, "nodes"); db->name = (char*)cx_object(k + nb, 2, "names"); cx_readonly(db); cx_readonly(db->decl); cx_readonly(db->name);
    uint64_t sz = HDR + NODE * n + k; cx_assert(crefl_db_size(db) == sz, "the announced size is header, nodes and names, without the builtin types"); uint8_t *p = (uint8_t*)cx_object(sz, 0, "image"); cx_assert(crefl_db_write_mem(db, p, sz - 1) == -1, "saving into too little room is refused"); cx_assert(crefl_db_write_mem(db, p, sz) == 0, "saving succeeds when the image fits");
    auto u = [&](unsigned o) { return p[o] | p[o + 1] << 8 | p[o + 2] << 16 | (uint32_t)p[o + 3] << 24; }; cx_assert(u(8) == n && u(12) == k && u(16) == b, "the header gives node count, name table size and root");
    static const uint64_t AT[6] = { 0, 1, 65535, 65536, 65537, 0 }; for (unsigned i = 0; i < 6; i++) { uint64_t j = i == 5 ? n - 1 : AT[i]; if (j < n) for (unsigned c = 0; c < NODE; c++) cx_assert(p[HDR + NODE * j + c] == ((uint8_t*)(db->decl + b + j))[c], "nodes follow in index order"); j = i == 5 ? k - 1 : AT[i]; if (j < k) cx_assert(p[HDR + NODE * n + j] == (uint8_t)db->name[nb + j], "names follow the nodes"); }
}
