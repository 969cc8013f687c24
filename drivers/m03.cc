#include "db.h"
// M03: tables grow without losing or moving anything by index.
// any table size below 2^24, any fill
CX_DRIVER(M03, node, 2) {
    size_t n = cx_sym("capacity", 24); cx_assume(n >= 1); decl_db *db = (decl_db*)malloc(sizeof(decl_db)); db->name = nullptr; db->decl_size = n; db->decl = (decl_node*)malloc(n * sizeof(decl_node)); cx_havoc(db->decl, n * sizeof(decl_node)); size_t at = cell ? n : cx_sym("fill", 24); cx_assume(at <= n); if (!cell) cx_assume(at < n);
    db->decl_offset = at; db->decl_builtin = cx_u64("builtin"); db->name_offset = cx_u64("name offset"); db->name_builtin = cx_u64("name builtin"); db->name_size = cx_u64("name size"); db->root_element = cx_u32("root"); decl_db old = *db; size_t w = cx_sym("witness", 24); if (at) cx_assume(w < at); decl_node keep; if (at) keep = db->decl[w]; uint32_t tag = cx_u32("tag");
    decl_ref r = crefl_decl_new(db, tag); cx_assert(r.db == db && r.decl_idx == at && db->decl_offset == at + 1, "a new node takes the next index"); cx_assert(db->decl_size >= db->decl_offset && cx_object_size(db->decl) >= db->decl_size * sizeof(decl_node), "the table has the size recorded for it");
    decl_node *d = crefl_decl_ptr(r); cx_assert(d == db->decl + at, "a reference names its node"); cx_assert(d->_tag == tag && !d->_props && !d->_name && !d->_next && !d->_link && !d->_attr && !d->_quantity, "a new node is empty but for its tag"); if (at) node_eq(db->decl + w, &keep, "no other node changes");
    cx_assert(db->decl_builtin == old.decl_builtin && db->name_offset == old.name_offset && db->name_builtin == old.name_builtin && db->name_size == old.name_size && db->root_element == old.root_element && !db->name, "nothing else changes"); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "destroying the database frees it");
}
CX_DRIVER(M03, new_name, 5) {
    size_t n = cx_sym("capacity", 24); cx_assume(n >= 32); decl_db *db = (decl_db*)malloc(sizeof(decl_db)); db->decl = nullptr; db->name_size = n; db->name = (char*)malloc(n); cx_havoc(db->name, n); size_t at = cell ? cx_sym("fill", 24) : n; cx_assume(at <= n && at >= 1); size_t len = cell ? cx_sym("length", 22) : 1; 
    // room: enough / one octet short / one doubling / more
    if (cell == 1) cx_assume(at + len + 1 <= n); else if (cell == 2) cx_assume(at + len == n); else if (cell == 3) cx_assume(at + len + 1 > n && at + len + 1 <= 2 * n); else if (cell == 4) cx_assume(at + len + 1 > 2 * n && at + len + 1 <= 16 * n); cx_assume(len >= 1);
    db->name_offset = at; char *s = cx_cstring(len); size_t w = cx_sym("witness", 24); cx_assume(w < at); char keep = db->name[w]; size_t j = cx_sym("letter", 24); cx_assume(j <= len); decl_id id = crefl_name_new(db, s);
    cx_assert(id == at, "a new name is appended"); cx_assert(db->name_offset == at + len + 1, "a name takes its length and a terminator"); cx_assert(db->name_size >= db->name_offset && cx_object_size(db->name) >= db->name_size, "the table has the size recorded for it"); cx_assert(db->name[w] == keep, "no other name changes"); cx_assert(db->name[at + j] == s[j], "the name is stored with its terminator"); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "destroying the database frees it");
}
CX_DRIVER(M03, empty_name, 1) { decl_db *db = crefl_db_new(); cx_assert(crefl_name_new(db, "") == 0 && db->name_offset == 1 && db->name[0] == 0, "the empty name is offset 0"); cx_assert(db->decl_offset == 1 && db->decl[0]._tag == _decl_none && !db->decl[0]._next && !db->decl[0]._link && !db->decl[0]._name, "node 0 is the empty node"); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "destroying the database frees it"); }
// the builtin types: one node each, in table order, then the builtin bounds
CX_DRIVER(M03, defaults, 3) {
    decl_db *db = crefl_db_new(); for (unsigned i = 0; i < cell * 20; i++) crefl_decl_new(db, _decl_struct); size_t base = db->decl_offset; crefl_db_defaults(db); size_t n = base, o = 1; for (const _ctype **t = all_types; *t; t++) if ((*t)->_tag == _decl_intrinsic) { decl_node *d = db->decl + n++; cx_assert(d->_tag == _decl_intrinsic && d->_props == (decl_set)(*t)->_props && d->_width == (decl_sz)(*t)->_width && !d->_link && !d->_next && !d->_attr, "a builtin type has its width and properties"); cx_assert(d->_name == o && !strcmp(crefl_decl_name(decl_ref{db, n - 1}), (*t)->_name), "a builtin type has its name"); o += strlen((*t)->_name) + 1; }
    cx_assert(db->decl_offset == n && db->decl_builtin == n && db->name_offset == o && db->name_builtin == o, "the builtin bounds follow the builtin types"); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "destroying the database frees it");
}
// what the builtin types are: each is found by its properties and width
CX_DRIVER(M03, builtin, 20) {
    static const struct { const char *n; unsigned w, p; } B[20] = { {"bool", 1, _decl_sint | _decl_pad_byte}, {"bit", 1, _decl_uint | _decl_pad_pow2}, {"sign", 1, _decl_sint | _decl_pad_pow2}, {"ubyte", 8, _decl_uint}, {"byte", 8, _decl_sint}, {"ushort", 16, _decl_uint}, {"short", 16, _decl_sint}, {"uint", 32, _decl_uint}, {"int", 32, _decl_sint}, {"ulong", 64, _decl_uint}, {"long", 64, _decl_sint}, {"ucent", 128, _decl_uint}, {"cent", 128, _decl_sint}, {"half", 16, _decl_float}, {"float", 32, _decl_float}, {"double", 64, _decl_float}, {"quad", 128, _decl_float}, {"cfloat", 64, _decl_cfloat}, {"cdouble", 128, _decl_cfloat}, {"cquad", 256, _decl_cfloat} };
    decl_db *db = fresh(); decl_ref r = crefl_intrinsic(db, B[cell].p, B[cell].w); cx_assert(r.decl_idx && crefl_is_intrinsic(r) && !strcmp(crefl_decl_name(r), B[cell].n), "a builtin type is found by its properties and width"); cx_assert(crefl_type_width(r) == (cell == 0 ? 8 : B[cell].w), "its width is that of the machine type");
}
