#include "db.h"
// M05: type widths and field offsets (in bits) follow the alignment rules, for any nesting.
struct Lay { uint64_t size; unsigned al; }; // size in bits, log2 of the alignment in bits
struct G { decl_db *db; unsigned n, counts; };
static const uint32_t P2 = _decl_pad_pow2, PB = _decl_pad_byte, PN = _decl_pad_bit;
static unsigned add(G &g, uint32_t tag, uint32_t props, uint64_t q, unsigned link = 0) { decl_node *d = g.db->decl + g.n; d->_tag = tag; d->_props = props; d->_quantity = q; d->_link = link; d->_next = 0; d->_name = d->_attr = 0; return g.n++; }
static G start(unsigned n) { G g = { graph(n, "", 1), 1, 0 }; return g; }
static uint64_t up(uint64_t x, unsigned a) { uint64_t m = ((uint64_t)1 << a) - 1; return (x + m) >> a << a; }
static unsigned fieldlist(G &g, const unsigned *t, unsigned n, const char *skip = 0) { unsigned first = 0, prev = 0; for (unsigned i = 0; i < n; i++) { unsigned f = add(g, _decl_field, 0, 0, t[i]); if (prev) g.db->decl[prev]._next = f; else first = f; prev = f; } return first; }
static Lay rec(const Lay *l, unsigned n, bool uni, uint64_t *off) { uint64_t o = 0, mx = 0; unsigned al = 0; for (unsigned i = 0; i < n; i++) { if (l[i].al > al) al = l[i].al; if (uni) { if (l[i].size > mx) mx = l[i].size; } else { o = up(o, l[i].al); if (off) off[i] = o; o += l[i].size; } } return Lay{ up(uni ? mx : o, al), al }; }
// one array length per type is unknown; others are fixed
// (its low bits, which decide the offsets modulo the largest alignment, are classes)
static int low = -1;
static uint64_t count(G &g) { if (g.counts++) return 11; uint64_t r = low < 0 ? cx_choose(0, 7) : low; return cx_sym("count", 37) << 3 | r; }
static Lay leaf(G &g, unsigned k, unsigned &id) {
    static const struct { uint32_t tag, props; unsigned w, al, size; } S[13] = { { 1, P2, 8, 3, 8 }, { 1, P2, 16, 4, 16 }, { 1, P2, 32, 5, 32 }, { 1, P2, 64, 6, 64 }, { 1, P2, 128, 7, 128 }, { 1, PB, 1, 3, 8 }, { 1, P2, 256, 7, 256 }, { 1, P2, 24, 4, 32 }, { 1, PN, 0, 0, 0 }, { _decl_pointer, 0, 64, 6, 64 }, { _decl_enum, 0, 32, 5, 32 }, { _decl_set, 0, 16, 4, 16 }, { 1, PN, 3, 0, 3 } };
    if (k < 13) { id = add(g, S[k].tag, S[k].props | (S[k].tag == 1 ? _decl_sint : 0), S[k].w); return Lay{ S[k].size, S[k].al }; }
    unsigned a, b; Lay l[2];
    switch (k) {
    case 13: { l[0] = leaf(g, 1, a); uint64_t c = count(g); id = add(g, _decl_array, 0, c, a); return Lay{ l[0].size * c, l[0].al }; }
    case 14: l[0] = leaf(g, 3, a); a = add(g, _decl_typedef, 0, 0, a); id = add(g, _decl_qualifier, _decl_const, 0, a); return l[0];
    case 15: { l[0] = leaf(g, 0, a); l[1] = leaf(g, 2, b); unsigned t[2] = { a, b }; id = add(g, _decl_struct, 0, 0, fieldlist(g, t, 2)); return rec(l, 2, false, 0); }
    case 16: { l[0] = leaf(g, 0, a); l[0].size *= 5; a = add(g, _decl_array, 0, 5, a); l[1] = leaf(g, 1, b); unsigned t[2] = { a, b }; id = add(g, _decl_union, 0, 0, fieldlist(g, t, 2)); return rec(l, 2, true, 0); }
    case 17: { l[0] = leaf(g, 15, a); uint64_t c = count(g); a = add(g, _decl_array, 0, c, a); id = add(g, _decl_array, 0, 2, a); return Lay{ l[0].size * 2 * c, l[0].al }; }
    case 18: { l[0] = leaf(g, 16, a); l[1] = leaf(g, 4, b); unsigned t[2] = { a, b }; id = add(g, _decl_struct, 0, 0, fieldlist(g, t, 2)); return rec(l, 2, false, 0); }
    default: l[0] = leaf(g, 15, a); a = add(g, _decl_typedef, 0, 0, a); id = add(g, _decl_alias, 0, 0, a); return l[0];
    }
}
// any width with any padding rule: highest set bit per class
CX_DRIVER(M05, width, 192) {
    cx_set("disj", 256); unsigned k = cell % 48, kind = cell / 48; G g = start(4); uint64_t w = cx_u64_bits("width", k + 1); unsigned al = k > 7 ? 7 : k; uint32_t any = cx_u32("props") & ~(uint32_t)(P2 | PB); unsigned id = kind < 3 ? add(g, _decl_intrinsic, any | (kind == 0 ? P2 : kind == 1 ? PB : 0), w) : add(g, cx_choose(0, 2) == 0 ? _decl_pointer : cx_choose(0, 1) ? _decl_enum : _decl_set, any, w);
    if (kind == 1) al = 3; if (kind == 2) al = 0; decl_ref d = { g.db, id }; uint64_t want = up(w, al); cx_assert(crefl_type_width(d) == want, "a machine type is padded to its own alignment"); if (kind < 3) cx_assert(crefl_intrinsic_width(d) == want, "a machine type is padded to its own alignment"); else cx_assert(crefl_intrinsic_width(d) == 0, "other kinds are no machine types");
    cx_assert(crefl_pointer_width(d) == (crefl_is_pointer(d) ? want : 0), "only pointers have a pointer width");
}
// every kind of type, behind a field
CX_DRIVER(M05, types, 20) { G g = start(24); unsigned id; Lay l = leaf(g, cell, id); cx_readonly(g.db); cx_assert(crefl_type_width(decl_ref{ g.db, id }) == l.size, "a type has the width the rules give"); unsigned f = add(g, _decl_field, 0, 0, id); cx_assert(crefl_type_width(decl_ref{ g.db, f }) == l.size, "a field is as wide as its type"); }
// arrays of arrays
CX_DRIVER(M05, arrays, 60) { G g = start(24); unsigned id; Lay l = leaf(g, cell % 20, id); uint64_t c = cx_sym("count", 48); unsigned m = cell / 20; if (cell % 20 == 13 || cell % 20 == 17) cx_done(); if (m == 1) id = add(g, _decl_array, 0, 3, id); id = add(g, _decl_array, 0, c, id); if (m == 2) { id = add(g, _decl_array, 0, 7, id); id = add(g, _decl_array, 0, 5, id); } decl_ref d = { g.db, id }; cx_assert(crefl_type_width(d) == l.size * (c * (m == 0 ? 1 : m == 1 ? 3 : 35)), "an array is as wide as its elements in all dimensions"); }
// arrays whose number of elements over all dimensions needs up to 56 bits
CX_DRIVER(M05, big_arrays, 60) { static const uint64_t C[12][4] = { { 100000, 70000, 1, 1 }, { 65536, 65536, 1, 1 }, { 1u << 31, 2, 1, 1 }, { 1u << 31, 1, 2, 1 }, { 4294967295u, 1, 1, 1 }, { 4294967296ull, 1, 3, 1 }, { 1, 4294967297ull, 1, 1 }, { 300, 300, 300, 300 }, { 1000, 1000, 1000, 1000 }, { 1ull << 40, 2, 2, 2 }, { 3, 5, 1ull << 34, 7 }, { 0, 1ull << 40, 5, 1 } }; static const unsigned L[5] = { 0, 2, 9, 15, 16 }; G g = start(24); unsigned id; Lay l = leaf(g, L[cell / 12], id); const uint64_t *c = C[cell % 12]; uint64_t n = 1; for (unsigned i = 0; i < 4; i++) { id = add(g, _decl_array, 0, c[i], id); n *= c[i]; if (i == 1 && cell % 2) id = add(g, _decl_typedef, 0, 0, id); } decl_ref d = { g.db, id }; cx_assert(crefl_type_width(d) == l.size * n, "an array is as wide as its elements together"); unsigned t[1] = { id }, s = add(g, _decl_struct, 0, 0, fieldlist(g, t, 1)); cx_assert(crefl_struct_width(decl_ref{ g.db, s }) == l.size * n, "a struct of an array is as wide as the array"); }
// structs and unions of up to three fields
static void record(unsigned *k, unsigned n, unsigned extra) {
    cx_set("disj", 256); G g = start(64); unsigned t[4]; Lay l[4]; uint64_t off[5]; for (unsigned i = 0; i < n; i++) l[i] = leaf(g, k[i], t[i]); unsigned f[4]; unsigned prev = 0, first = 0;
    for (unsigned i = 0; i < n; i++) { if (extra == i + 1) { unsigned x = add(g, _decl_constant, 0, 99, t[i]); if (prev) g.db->decl[prev]._next = x; else first = x; prev = x; } f[i] = add(g, _decl_field, 0, 0, t[i]); if (prev) g.db->decl[prev]._next = f[i]; else first = f[i]; prev = f[i]; }
    unsigned s = add(g, _decl_struct, 0, 0, first), u = add(g, _decl_union, 0, 0, first); cx_readonly(g.db); cx_readonly(g.db->decl); decl_ref ds = { g.db, s }, du = { g.db, u }; Lay ls = rec(l, n, false, off), lu = rec(l, n, true, 0); off[n] = ls.size;
    cx_assert(crefl_struct_width(ds) == ls.size && crefl_type_width(ds) == ls.size, "a struct is its aligned fields in order, padded to its alignment"); cx_assert(crefl_union_width(du) == lu.size && crefl_type_width(du) == lu.size, "a union is its widest field, padded to its alignment"); cx_assert(crefl_struct_width(du) == 0 && crefl_union_width(ds) == 0, "other kinds have no such width");
    for (unsigned room = 0; room <= n + 2; room++) {
        decl_ref *r = (decl_ref*)cx_object(sizeof(decl_ref) * room, 1, "fields"); size_t *o = (size_t*)cx_object(sizeof(size_t) * room, 2, "offsets"), keep[6]; for (unsigned i = 0; i < room; i++) keep[i] = o[i]; size_t c = room; cx_assert(crefl_struct_fields_offsets(ds, r, o, &c) == 0, "a query on a struct succeeds"); cx_assert(c == (n ? n + 1 : 0), "there is one entry per field and a final one");
        for (unsigned i = 0; i < room; i++) if (i < n) cx_assert(r[i].db == g.db && r[i].decl_idx == f[i] && o[i] == off[i], "each field is at its aligned offset"); else if (i == n) cx_assert(r[i].db == g.db && r[i].decl_idx == 0 && o[i] == off[n], "the final entry is the padded width"); else cx_assert(r[i].db == 0 && o[i] == keep[i], "no more is stored");
        size_t c2 = room; cx_assert(crefl_struct_fields_offsets(ds, 0, 0, &c2) == 0 && c2 == c, "counting needs no room"); if (room == n + 1) { cx_assert(crefl_struct_fields_offsets(ds, 0, o, &c2) == 0 && crefl_struct_fields_offsets(ds, r, 0, &c2) == 0, "either result may be omitted"); }
    }
}
CX_DRIVER(M05, records2, 1260) { unsigned k[2] = { cell % 20, cell / 20 % 21 }; record(k, k[1] == 20 ? 1 : 2, cell / 420); }
CX_DRIVER(M05, all_records3, 8000) { unsigned k[3] = { cell % 20, cell / 20 % 20, cell / 400 }; low = cell / 7 % 8; record(k, 3, cell % 4); }
CX_DRIVER(M05, some_records3, 1600) { static const unsigned X[8] = { 0, 1, 3, 5, 8, 12, 13, 15 }; unsigned k[3] = { X[cell % 8], cell / 8 % 20, X[(cell / 160) % 8] }; if (cell >= 1280) cx_done(); low = cell / 7 % 8; record(k, 3, cell % 4); }
CX_DRIVER(M05, empty, 1) { unsigned k[1]; record(k, 0, 0); }
// other kinds have no width
CX_DRIVER(M05, none, 1) { G g = start(2); add(g, cx_u32("tag"), cx_u32("props"), cx_u64("quantity"), 0); uint32_t t = g.db->decl[1]._tag; cx_assume(t == _decl_none || t >= _decl_attribute); cx_assume(t != _decl_alias); cx_assume(t != _decl_qualifier); cx_assert(crefl_type_width(decl_ref{ g.db, 1 }) == 0, "declarations that are no types have no width"); }
// long and deep records
CX_DRIVER(M05, long_record, 40) {
    low = cell % 8;     cx_set("states", 1 << 22); cx_set("disj", 1024); static const unsigned N[4] = { 5, 17, 64, 260 }; unsigned n = N[cell % 4], step = 1 + cell / 4; G g = start(6 * 24 + n + 40); unsigned t[20]; Lay l[20]; for (unsigned i = 0; i < 20; i++) l[i] = leaf(g, i, t[i]); Lay *fl = (Lay*)malloc(n * sizeof(Lay)); unsigned *f = (unsigned*)malloc(n * 4); uint64_t *off = (uint64_t*)malloc(8 * (n + 1));
    for (unsigned i = 0; i < n; i++) { unsigned k = i == n / 2 ? 13 : (i * step + i / 20 + cell) % 13; fl[i] = l[k]; f[i] = add(g, _decl_field, 0, 0, t[k]); g.db->decl[f[i]]._next = i + 1 < n ? f[i] + 1 : 0; } unsigned s = add(g, _decl_struct, 0, 0, f[0]), u = add(g, _decl_union, 0, 0, f[0]); cx_readonly(g.db->decl); decl_ref ds = { g.db, s }, du = { g.db, u };
    Lay ls = rec(fl, n, false, off); cx_assert(crefl_struct_width(ds) == ls.size && crefl_type_width(ds) == ls.size, "a struct is its aligned fields in order, padded to its alignment"); off[n] = ls.size; Lay lu = rec(fl, n, true, 0); cx_assert(crefl_union_width(du) == lu.size, "a union is its widest field, padded to its alignment");
    size_t c = n + 1; decl_ref *r = (decl_ref*)malloc(sizeof(decl_ref) * (n + 1)); size_t *o = (size_t*)malloc(8 * (n + 1)); cx_assert(crefl_struct_fields_offsets(ds, r, o, &c) == 0, "the offsets of a struct are found"); for (unsigned i = 0; i <= n; i++) { if (i < n) cx_assert(r[i].decl_idx == f[i], "fields are reported in order"); cx_assert(o[i] == off[i], "each field is at its aligned offset"); }
}
CX_DRIVER(M05, deep_record, 40) {
    unsigned depth = 4 + cell % 10 * 2, kind = cell / 10; G g = start(40 + depth * 5); unsigned a, b; Lay l[2], in; unsigned id; in = leaf(g, kind == 1 ? 13 : 1, id); l[1] = leaf(g, 0, b);
    for (unsigned i = 0; i < depth; i++) { unsigned t[2] = { id, b }; l[0] = in; switch (kind == 3 ? i % 3 : kind) { case 0: id = add(g, _decl_struct, 0, 0, fieldlist(g, t, 2)); in = rec(l, 2, false, 0); break; case 1: id = add(g, _decl_union, 0, 0, fieldlist(g, t, 2)); in = rec(l, 2, true, 0); break; default: if (i % 4 == 1) { id = add(g, _decl_array, 0, 3, id); in.size *= 3; } else id = add(g, i % 4 == 2 ? _decl_qualifier : _decl_typedef, 0, 0, id); } }
    cx_readonly(g.db->decl); decl_ref d = { g.db, id }; cx_assert(crefl_type_width(d) == in.size, "nested types take the layout of what they stand for");
}
