#include "db.h"
// M04: predicates, accessors and list queries over any graph.
typedef int (*pred)(decl_ref);
static const pred IS[19] = { crefl_is_none, crefl_is_intrinsic, crefl_is_typedef, crefl_is_set, crefl_is_enum, crefl_is_struct, crefl_is_union, crefl_is_field, crefl_is_array, crefl_is_pointer, crefl_is_constant, crefl_is_function, crefl_is_param, 0, crefl_is_attribute, crefl_is_value, crefl_is_archive, crefl_is_source, crefl_is_alias };
static const char *NAME[19] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
static bool is_type(uint32_t t) { return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier; }
static decl_db *two() { decl_db *db = graph(2, "\0ab", 4); db->decl[1]._link = cx_u32("link"); return db; }
static bool ref(decl_ref a, decl_db *db, size_t i) { return a.db == db && a.decl_idx == i; }
// one kind, against a node of any tag
CX_DRIVER(M04, kind, 19) {
    decl_db *db = two(); decl_ref d = crefl_lookup(db, 1); decl_node *p = db->decl + 1; uint32_t t = p->_tag; bool is = t == cell; cx_readonly(db); cx_readonly(db->decl); cx_readonly(db->name);
    if (IS[cell]) cx_assert((IS[cell](d) != 0) == is, "a predicate holds exactly for its kind"); if (is) cx_assert((crefl_is_type(d) != 0) == is_type(t), "types are exactly the type kinds"); cx_assert(!strcmp(crefl_tag_name(cell), NAME[cell]), "each kind has its name");
    typedef decl_ref (*typ)(decl_ref); static const typ T[19] = { 0, 0, crefl_typedef_type, 0, 0, 0, 0, crefl_field_type, crefl_array_type, crefl_pointer_type, crefl_constant_type, 0, crefl_param_type, 0, 0, 0, 0, 0, 0 };
    if (T[cell]) cx_assert(ref(T[cell](d), db, is ? p->_link : 0), "the type of a declaration is its link, none for another kind");
    if (cell == _decl_array) cx_assert(crefl_array_count(d) == (is ? p->_count : 0), "an array has its count"); if (cell == _decl_constant) cx_assert(crefl_constant_value(d).ux == (is ? p->_value : 0), "a constant has its value"); if (cell == _decl_function) cx_assert((uint64_t)crefl_function_addr(d) == (is ? p->_addr : 0), "a function has its address");
}
CX_DRIVER(M04, unknown, 1) { decl_db *db = two(); decl_ref d = crefl_lookup(db, 1); uint32_t t = db->decl[1]._tag; cx_assume(t > 18); cx_assert(!strcmp(crefl_tag_name(t), "<unknown>"), "other tags have no name"); for (int i = 0; i < 19; i++) if (IS[i]) cx_assert(!IS[i](d), "other tags are of no kind"); cx_assert(!crefl_is_type(d) && crefl_is_any(d), "other tags are no types"); }
CX_DRIVER(M04, accessors, 1) {
    decl_db *db = graph(2, "\0ab", 4); db->root_element = cx_u32("root"); decl_node *p = db->decl + 1; decl_ref d = { db, 1 }; cx_readonly(db); cx_readonly(db->decl); cx_assert(ref(crefl_lookup(db, 1), db, 1), "lookup refers to the index"); size_t any = cx_u64("index"); cx_assert(ref(crefl_lookup(db, any), db, any) && crefl_decl_idx(decl_ref{db, (size_t)(uint32_t)any}) == (uint32_t)any, "lookup refers to the index");
    cx_assert(crefl_decl_ptr(d) == p && crefl_decl_tag(d) == p->_tag && crefl_decl_props(d) == p->_props && crefl_decl_qty(d) == p->_quantity && crefl_decl_idx(d) == 1, "accessors read the node"); cx_assert(ref(crefl_decl_next(d), db, p->_next), "next follows the list"); cx_assert(ref(crefl_decl_link(d), db, p->_link), "link follows the child"); cx_assert(ref(crefl_decl_attr(d), db, p->_attr), "attr follows the attributes");
    cx_assert(ref(crefl_decl_void(d), db, 0), "void is index 0"); cx_assert(ref(crefl_root(db), db, db->root_element), "root is the root element"); cx_assert((crefl_decl_has_name(d) != 0) == (p->_name != 0), "a name is present unless its offset is 0");
}
CX_DRIVER(M04, names, 4) { decl_db *db = graph(2, "\0ab", 4); db->decl[1]._name = cell; cx_assert(crefl_decl_name(decl_ref{db, 1}) == db->name + cell, "the name is at its offset"); }
// lookup of a machine type among any nodes: the first match
CX_DRIVER(M04, intrinsic, 40) {
    static const uint32_t Q[8] = { 0, _decl_sint, _decl_uint, _decl_float, _decl_cfloat, _decl_pad_byte, _decl_sint | _decl_const, 0xffffffff }; cx_set("disj", 512); cx_set("states", 100000); unsigned n = cell / 8 + 1; decl_db *db = graph(n, "", 1); uint32_t props = Q[cell % 8]; uint64_t w = cx_u64("width"); decl_ref r = crefl_intrinsic(db, props, w); cx_assert(r.db == db, "lookup stays in the database"); size_t want = 0;
    for (unsigned i = n; i-- > 1;) if (db->decl[i]._tag == _decl_intrinsic) { if (db->decl[i]._width == w) { if ((db->decl[i]._props & props) == props) want = i; } } cx_assert(r.decl_idx == want, "the first machine type of that width with those properties is found");
}
// list queries: any kinds along a list of up to 4 nodes, every result room
typedef int (*list)(decl_ref, decl_ref*, size_t*);
static const struct { list f; uint32_t owner; unsigned what; } L[11] = { { crefl_enum_constants, _decl_enum, _decl_constant }, { crefl_set_constants, _decl_set, _decl_constant }, { crefl_struct_fields, _decl_struct, _decl_field }, { crefl_union_fields, _decl_union, _decl_field }, { crefl_function_params, _decl_function, _decl_param }, { crefl_source_decls, _decl_source, 100 }, { crefl_source_types, _decl_source, 101 }, { crefl_source_fields, _decl_source, _decl_field }, { crefl_source_functions, _decl_source, _decl_function }, { crefl_archive_sources, _decl_archive, _decl_source }, { crefl_archive_sources, _decl_archive, _decl_source } };
CX_DRIVER(M04, lists, 600) {
    cx_set("disj", 512); cx_set("states", 100000); unsigned k = cell % 10; cell /= 10; unsigned n = cell % 5; cell /= 5; unsigned room = cell % 6, dir = cell / 6; if (room > n + 1 || (k == 6 && n > 3)) cx_done(); decl_db *db = graph(n + 2, "", 1); unsigned order[5]; for (unsigned i = 0; i < n; i++) order[i] = dir ? 1 + n - i : 2 + i; // list order: ascending or descending indices
    db->decl[1]._tag = L[k].owner; db->decl[1]._link = n ? order[0] : 0; for (unsigned i = 0; i < n; i++) db->decl[order[i]]._next = i + 1 < n ? order[i + 1] : 0; cx_readonly(db->decl); cx_readonly(db);
    decl_ref *r = (decl_ref*)cx_object(sizeof(decl_ref) * room, 1, "results"); size_t s = room; decl_ref d = { db, 1 }; cx_assert(L[k].f(d, r, &s) == 0, "a query on its kind succeeds");
    size_t c = 0; for (unsigned i = 0; i < n; i++) { uint32_t t = db->decl[order[i]]._tag; bool in = L[k].what == 100 ? true : L[k].what == 101 ? is_type(t) : t == L[k].what; if (in) { if (c < room) cx_assert(ref(r[c], db, order[i]), "results are the members in list order"); c++; } } cx_assert(s == c, "the count is that of all members"); for (size_t i = c; i < room; i++) cx_assert(r[i].db == 0 && r[i].decl_idx == 0, "no more is stored");
    size_t s2 = room; cx_assert(L[k].f(d, 0, &s2) == 0 && s2 == c, "counting needs no room"); cx_assert(L[k].f(d, r, 0) == 0, "without a room nothing is stored");
}
// on any other kind a query fails and stores nothing
CX_DRIVER(M04, refused, 10) { decl_db *db = graph(2, "", 1); cx_assume(db->decl[1]._tag != L[cell].owner); cx_readonly(db->decl); decl_ref *r = (decl_ref*)cx_object(32, 1, "results"); cx_readonly(r); size_t *s = (size_t*)cx_object(8, 2, "room"); cx_readonly(s); cx_assert(L[cell].f(decl_ref{ db, 1 }, r, s) == -1, "a query on another kind is refused"); if (db->decl[1]._tag != _decl_struct) cx_assert(crefl_struct_fields_offsets(decl_ref{ db, 1 }, r, s, s) == -1, "a query on another kind is refused"); }
// long lists: member kinds alternate, one is unknown; rooms around powers of two and the number of members
CX_DRIVER(M04, long_lists, 240) {
    cx_set("states", 1 << 22); cx_set("disj", 4096); static const unsigned N[4] = { 9, 40, 258, 600 }; unsigned k = cell % 10, n = N[cell / 10 % 4], w = cell / 40, room = w == 0 ? 0 : w == 1 ? 8 : w == 2 ? n / 2 : w == 3 ? n - 1 : w == 4 ? n : n + 3; if (k == 6 && n > 300) cx_done();
    decl_db *db = (decl_db*)cx_object(sizeof(decl_db), 1, "db"); db->decl = (decl_node*)cx_object(sizeof(decl_node) * (n + 2), 1, "nodes"); db->decl_offset = db->decl_size = n + 2; unsigned what = L[k].what == 100 || L[k].what == 101 ? _decl_struct : L[k].what;
    db->decl[1]._tag = L[k].owner; db->decl[1]._link = n + 1; for (unsigned i = 0; i < n; i++) { decl_node *d = db->decl + n + 1 - i; d->_tag = i % 7 == 3 ? _decl_value : what; d->_next = i + 1 < n ? n - i : 0; d->_props = i; d->_quantity = i; } db->decl[n + 1 - n / 3]._tag = cx_u32("tag"); cx_readonly(db->decl); cx_readonly(db);
    decl_ref *r = (decl_ref*)cx_object(sizeof(decl_ref) * room, 1, "results"); size_t s = room; decl_ref d = { db, 1 }; cx_assert(L[k].f(d, r, &s) == 0, "a query on its kind succeeds"); size_t c = 0;
    for (unsigned i = 0; i < n; i++) { uint32_t t = db->decl[n + 1 - i]._tag; bool in = L[k].what == 100 ? true : L[k].what == 101 ? is_type(t) : t == L[k].what; if (in) { if (c < room) cx_assert(ref(r[c], db, n + 1 - i), "results are the members in list order"); c++; } } cx_assert(s == c, "the number of members is reported, stored or not");
}
