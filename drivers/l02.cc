#include "sum.h"
// L02: merging keeps every declaration of every source, sharing those with equal digests.
SUM_STUBS(L02)
// sources are drawn from nine groups of declarations; properties and quantities are unknown, the same for the same declaration
static uint32_t PR[64]; static uint64_t QT[64];
static unsigned mk(decl_db *db, unsigned v, uint32_t tag, const char *name, unsigned link = 0, unsigned attr = 0) { decl_ref r = crefl_decl_new(db, tag); decl_id nm = crefl_name_new(db, name); decl_node *d = crefl_decl_ptr(r); d->_name = nm; d->_props = PR[v]; d->_quantity = QT[v]; d->_link = link; d->_attr = attr; return crefl_decl_idx(r); }
static unsigned chain(decl_db *db, unsigned a, unsigned b, unsigned c = 0) { db->decl[a]._next = b; if (b && c) db->decl[b]._next = c; return a; }
static unsigned mkP(decl_db *db, bool other) { unsigned i = other ? 2 : 1; unsigned s = mk(db, 0, _decl_struct, "P"), p = mk(db, 1, _decl_pointer, "", s); unsigned x = mk(db, 2, _decl_field, other ? "y" : "x", i), n = mk(db, 3, _decl_field, "next", p); db->decl[s]._link = chain(db, x, n); return s; }
static void source(decl_db *db, unsigned mask, const char *name) {
    unsigned root = mk(db, 40, _decl_source, name), last = 0, P = 0; db->root_element = root;
    auto list = [&](unsigned d) { if (last) db->decl[last]._next = d; else db->decl[root]._link = d; last = d; };
    if (mask & 1) list(P = mkP(db, false));
    if (mask & 32) list(mkP(db, true));
    if (mask & 2) { unsigned a = mk(db, 5, _decl_constant, "a"), b = mk(db, 6, _decl_constant, "b"); list(mk(db, 4, _decl_enum, "E", chain(db, a, b))); }
    if (mask & 64) { unsigned a = mk(db, 5, _decl_constant, "a"), b = mk(db, 26, _decl_constant, "b"); list(mk(db, 4, _decl_enum, "E", chain(db, a, b))); unsigned k = mk(db, 25, _decl_constant, "bit0"); list(mk(db, 27, _decl_set, "S", k)); } // differ in a value, in a property
    if (mask & 4) { if (!P) P = mkP(db, false); unsigned c = mk(db, 8, _decl_qualifier, "", P), p = mk(db, 9, _decl_pointer, "", c), r = mk(db, 10, _decl_param, "", 3), q = mk(db, 11, _decl_param, "p", p), v = mk(db, 12, _decl_value, "v"), a1 = mk(db, 13, _decl_attribute, "one", v), a2 = mk(db, 14, _decl_attribute, "two"); list(mk(db, 7, _decl_function, "f", chain(db, r, q), chain(db, a1, a2))); }
    if (mask & 8) { unsigned ar = mk(db, 16, _decl_array, "", 7), f = mk(db, 17, _decl_field, "data", ar), s = mk(db, 15, _decl_struct, "", f); list(s); list(mk(db, 18, _decl_typedef, "T", s)); }
    if (mask & 16) { unsigned g = mk(db, 20, _decl_field, "g", 9), s = mk(db, 19, _decl_struct, "", g), m = mk(db, 21, _decl_field, "", s), w = mk(db, 22, _decl_field, "w", 4), k = mk(db, 25, _decl_constant, "bit0"), st = mk(db, 24, _decl_set, "S", k); list(st); list(mk(db, 23, _decl_union, "U", chain(db, m, w))); }
    if (mask & 128) { // attributes at every place, declarations without names, nested records, arrays of arrays
        unsigned v = mk(db, 12, _decl_value, "v"), v2 = mk(db, 12, _decl_value, ""), a1 = mk(db, 28, _decl_attribute, "one", v), a2 = mk(db, 29, _decl_attribute, "", v2), a3 = mk(db, 28, _decl_attribute, "one"), e = mk(db, 30, _decl_enum, "", mk(db, 5, _decl_constant, "a"));
        unsigned in = mk(db, 32, _decl_union, "", mk(db, 31, _decl_field, "z", 5)), arr = mk(db, 33, _decl_array, "", mk(db, 34, _decl_array, "", e)), f1 = mk(db, 35, _decl_field, "", in, a1), f2 = mk(db, 36, _decl_field, "arr", arr), k = mk(db, 36, _decl_constant, "k"), A = mk(db, 37, _decl_struct, "A", chain(db, f1, k, f2), chain(db, a2, a3)), p = mk(db, 38, _decl_param, "p", 4, mk(db, 28, _decl_attribute, "two")), fn = mk(db, 39, _decl_function, "g"), an = mk(db, 39, _decl_function, "", p);
        list(e); list(mk(db, 38, _decl_typedef, "TA", A, mk(db, 29, _decl_attribute, "x"))); list(A); list(in); list(fn); list(an); }
}
static bool list_kind(unsigned t) { return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }
static bool shared_kind(unsigned t) { return t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }
static decl_db *S, *O; static unsigned *seen, nseen = 128; // source node -> merged node found equal
static void equal(unsigned s, unsigned o) {
    decl_node *a = S->decl + s; if (a->_tag == _decl_intrinsic) { cx_assert(o == s, "machine types keep their index"); return; }
    cx_assert(o < O->decl_offset && o >= O->decl_builtin, "merged declarations are in the merged tables"); cx_assert(!strcmp(O->name + O->decl[o]._name, S->name + a->_name), "a declaration keeps its name");
    if (a->_tag != _decl_alias && O->decl[o]._tag == _decl_alias) { o = O->decl[o]._link; cx_assert(O->decl[o]._tag == a->_tag, "an alias refers to the shared declaration itself"); }
    if (seen[s] == o) return; seen[s] = o; decl_node *b = O->decl + o; cx_assert(b->_tag == a->_tag, "a declaration keeps its kind"); cx_assert(b->_props == a->_props && b->_quantity == a->_quantity, "a declaration keeps its properties and quantity"); cx_assert(!strcmp(O->name + b->_name, S->name + a->_name), "a declaration keeps its name");
    unsigned x = a->_attr, y = O->decl[o]._attr; for (; x && y; x = S->decl[x]._next, y = O->decl[y]._next) equal(x, y); cx_assert(!x && !y, "a declaration keeps its attributes, in order");
    x = a->_link; y = O->decl[o]._link; if (list_kind(a->_tag)) { for (; x && y; x = S->decl[x]._next, y = O->decl[y]._next) equal(x, y); cx_assert(!x && !y, "a declaration keeps its members, in order"); } else { cx_assert(!x == !y, "a declaration keeps what it refers to"); if (x) equal(x, y); }
}
static void inputs() { for (unsigned i = 0; i < 41; i++) { PR[i] = cx_u32("props"); QT[i] = cx_u64("quantity"); } cx_assume(QT[26] != QT[6]); QT[27] = QT[24]; cx_assume(PR[27] != PR[24]); }
static void merged(decl_db *out, decl_db **in, unsigned n, const char *base) {
    decl_node *r = out->decl + out->root_element; cx_assert(out->root_element == out->decl_builtin && r->_tag == _decl_archive && !r->_next && !strcmp(out->name + r->_name, base), "the merged root is an archive named after the output file"); unsigned o = r->_link;
    for (unsigned i = 0; i < n; i++) { cx_assert(o != 0, "the archive lists every source in order"); S = in[i]; O = out; seen = (unsigned*)cx_object(4 * nseen, 1, "pairs"); equal(S->root_element, o); o = out->decl[o]._next; } cx_assert(!o, "the archive lists the sources only");
    for (unsigned i = 0; i < out->decl_offset; i++) { decl_node *d = out->decl + i; cx_assert(d->_name < out->name_offset && d->_next < out->decl_offset && d->_link < out->decl_offset && d->_attr < out->decl_offset, "every index of the merged database is in range"); }
}
static unsigned count(decl_db *out, uint32_t tag, const char *name) { unsigned c = 0; for (unsigned i = out->decl_builtin; i < out->decl_offset; i++) if (out->decl[i]._tag == tag && !strcmp(out->name + out->decl[i]._name, name)) c++; return c; }
static void sharing(decl_db *out, unsigned a, unsigned b) { unsigned m = a | b; cx_assert(count(out, _decl_struct, "P") == ((m & 5) ? 1 : 0) + ((m & 32) ? 1 : 0), "equal types are present once, different types of the same name both"); cx_assert(count(out, _decl_enum, "E") == ((m & 2) ? 1 : 0) + ((m & 64) ? 1 : 0) && count(out, _decl_function, "f") == ((m & 4) ? 1 : 0) && count(out, _decl_union, "U") == ((m & 16) ? 1 : 0) && count(out, _decl_set, "S") == ((m & 16) ? 1 : 0) + ((m & 64) ? 1 : 0), "equal types are present once"); }
static void two(unsigned a, unsigned b) {
    inputs(); decl_db *in[2] = { fresh(), fresh() }; source(in[0], a, "one.c"); source(in[1], b, cx_choose(0, 1) ? "two.c" : "one.c"); for (int i = 0; i < 2; i++) { cx_readonly(in[i]); cx_readonly(in[i]->decl); cx_readonly(in[i]->name); }
    decl_db *out = crefl_db_new(); cx_assert(crefl_link_merge(out, "dir/lib.refl", in, 2) == 0, "merging succeeds"); merged(out, in, 2, "lib.refl"); sharing(out, a, b);
    for (int i = 0; i < 2; i++) { cx_writable(in[i]); cx_writable(in[i]->decl); cx_writable(in[i]->name); crefl_db_destroy(in[i]); } crefl_db_destroy(out); cx_assert(cx_heap_live() == 0, "merging frees what it allocates");
}
CX_DRIVER(L02, pair, 256) { where = (cell + cell / 16) % 4; static const unsigned M[16] = { 0, 1, 2, 4, 8, 80, 32, 5, 33, 37, 127, 6, 68, 24, 21, 62 }; two(M[cell % 16], M[cell / 16]); }
CX_DRIVER(L02, group, 32) { where = cell % 4; static const unsigned M[8] = { 0, 128, 129, 130, 136, 192, 255, 127 }; two(cell % 2 ? 128 : M[cell / 4], cell % 2 ? M[cell / 4] : 128); }
CX_DRIVER(L02, all_pair, 4096) { where = (cell + cell / 64) % 4; two(cell % 64, cell / 64); }
// no, one, and three sources; a merged database as a source
CX_DRIVER(L02, number, 64) { inputs(); static const unsigned M[4] = { 63, 37, 22 | 128, 5 | 128 }; unsigned n = cell / 16; decl_db *in[3] = { fresh(), fresh(), fresh() }; static const char *SN[8][3] = { { "a", "b", "c" }, { "a", "", "c" }, { "", "b", "c" }, { "a", "b", "" }, { "", "", "" }, { "a", "a", "a" }, { "a", "", "" }, { "", "b", "" } }; const char **sn = SN[(cell + cell / 8) % 8]; source(in[0], M[cell % 4], sn[0]); source(in[1], M[cell / 4 % 4], sn[1]); source(in[2], M[(cell + 1) % 4], sn[2]); decl_db *out = crefl_db_new(); cx_assert(crefl_link_merge(out, "x", in, n) == 0, "merging succeeds"); merged(out, in, n, "x"); crefl_db_destroy(out); for (int i = 0; i < 3; i++) crefl_db_destroy(in[i]); cx_assert(cx_heap_live() == 0, "merging frees what it allocates"); }
CX_DRIVER(L02, again, 16) { inputs(); static const unsigned M[4] = { 63, 37, 22, 5 }; decl_db *in[2] = { fresh(), fresh() }; source(in[0], M[cell % 4], "a"); source(in[1], M[cell / 4], "b"); decl_db *mid = crefl_db_new(); crefl_link_merge(mid, "m", in, 2); merged(mid, in, 2, "m"); decl_db *from[2] = { mid, in[0] }; decl_db *out = crefl_db_new(); cx_assert(crefl_link_merge(out, "x", from, 2) == 0, "merging succeeds"); merged(out, from, 2, "x"); crefl_db_destroy(mid); crefl_db_destroy(out); for (int i = 0; i < 2; i++) crefl_db_destroy(in[i]); }
// many declarations and many sources: tables and indices grow while merging
static const char *nth(unsigned i) { static char b[8]; b[0] = 'S'; b[1] = 'a' + i % 26; b[2] = 'a' + i / 26; b[3] = 0; return b; }
static void many(decl_db *db, unsigned k, unsigned n, unsigned vary) {
    unsigned root = mk(db, 40, _decl_source, k % 2 ? "odd" : "even"), last = 0; db->root_element = root; unsigned *id = (unsigned*)malloc(4 * n);
    for (unsigned i = 0; i < n; i++) { bool own = vary && i % vary == k % vary; unsigned t = i % 4 == 3 ? mk(db, 1, _decl_pointer, "", id[i / 2]) : i % 4 == 2 ? mk(db, 16, _decl_array, "", id[i - 1]) : 3 + i % 5, f = mk(db, 2, _decl_field, "f", t), g = mk(db, 3, _decl_field, nth(i), 4); if (own) db->decl[g]._quantity = 1000 + k; id[i] = mk(db, 0, i % 3 ? _decl_struct : _decl_union, nth(i), chain(db, f, g)); if (last) db->decl[last]._next = id[i]; else db->decl[root]._link = id[i]; last = id[i]; } free(id);
}
CX_DRIVER(L02, large, 24) {
    static const unsigned N[6][2] = { { 1, 60 }, { 2, 40 }, { 3, 26 }, { 5, 13 }, { 9, 6 }, { 17, 3 } }; unsigned k = N[cell % 6][0], n = N[cell % 6][1], vary = cell / 6 == 0 ? 0 : cell / 6 == 1 ? 1 : cell / 6 == 2 ? 7 : n; cx_set("states", 1 << 24); cx_set("iter", 1 << 20); maxlogs = 1600; nseen = 1024; for (unsigned i = 0; i < 41; i++) { PR[i] = i; QT[i] = i * 3; } PR[2] = cx_u32("props");
    decl_db *in[17]; for (unsigned i = 0; i < k; i++) { in[i] = fresh(); many(in[i], i, n, vary); cx_readonly(in[i]); cx_readonly(in[i]->decl); cx_readonly(in[i]->name); } decl_db *out = crefl_db_new(); cx_assert(crefl_link_merge(out, "lib", in, k) == 0, "merging succeeds"); merged(out, in, k, "lib");
    if (!vary) for (unsigned i = 0; i < n; i++) cx_assert(count(out, i % 3 ? _decl_struct : _decl_union, nth(i)) == 1, "equal types are present once");
    for (unsigned i = 0; i < k; i++) { cx_writable(in[i]); cx_writable(in[i]->decl); cx_writable(in[i]->name); crefl_db_destroy(in[i]); } crefl_db_destroy(out); cx_assert(cx_heap_live() == 0, "merging frees what it allocates");
}
