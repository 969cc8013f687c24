#include "sum.h"
#include <crefl/dump.h>
// D01: the dump prints each declaration as it is, in columns of fixed width.
SUM_STUBS(D01)
struct Txt { unsigned n; char b[120000]; };
static void put(Txt &t, const char *s) { while (*s) { cx_assert(t.n < sizeof t.b, "texts are short"); t.b[t.n++] = *s++; } }
static void num(Txt &t, uint64_t v, unsigned base) { char d[24]; unsigned n = 0; do { d[n++] = "0123456789abcdef"[v % base]; v /= base; } while (v); while (n) t.b[t.n++] = d[--n]; }
static void cell_(Txt &t, const Txt &c, unsigned w, char pad = ' ') { if (c.n < w) { for (unsigned i = 0; i < w; i++) t.b[t.n++] = i < c.n ? c.b[i] : pad; } else { for (unsigned i = 0; i + 1 < w; i++) t.b[t.n++] = c.b[i]; put(t, "\xe2\x80\xa6"); } }
static const char *TAG[19] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
static const struct { uint32_t p; const char *n; } PROP[15] = { { _decl_const, "const" }, { _decl_volatile, "volatile" }, { _decl_restrict, "restrict" }, { _decl_static, "static" }, { _decl_extern_c, "extern_c" }, { _decl_inline, "inline" }, { _decl_noreturn, "noreturn" }, { _decl_local, "local" }, { _decl_global, "global" }, { _decl_weak, "weak" }, { _decl_default, "default" }, { _decl_hidden, "hidden" }, { _decl_in, "in" }, { _decl_out, "out" }, { _decl_vla, "vla" } };
static const char *NAMES[8] = { "", "a", "thirteenchars", "fourteen_chars", "fifteenchars_xx", "a_name_of_twenty_seven_char", "a_name_of_twenty_eight_chars", "a_name_that_is_longer_than_any_of_the_columns_are_wide" };
static const uint64_t QTY[5] = { 0, 9, 10, 4294967296ull, 18446744073709551615ull };
static const struct { unsigned name, props, detail, fqn; bool sum; } FMT[8] = { { 15, 15, 20, 0, false }, { 15, 15, 20, 23, false }, { 15, 15, 20, 0, true }, { 15, 15, 20, 23, true }, { 28, 25, 30, 0, false }, { 28, 25, 30, 30, false }, { 28, 25, 30, 0, true }, { 28, 25, 30, 30, true } };
static void printed(const Txt &t, const char *what) { cx_assert(cx_out_len() == t.n, what); for (unsigned i = 0; i < t.n; i++) cx_assert(cx_out_at(i) == (uint16_t)(uint8_t)t.b[i], what); }
static const char *HEAD[10] = { "id", "attr", "next", "link", "type", "name", "props", "detail", "hash", "fqn" };
static unsigned width(unsigned f, unsigned c) { return c < 4 ? 5 : c == 4 ? 10 : c == 5 ? FMT[f].name : c == 6 ? FMT[f].props : c == 7 ? FMT[f].detail : c == 8 ? (FMT[f].sum ? 57 : 0) : FMT[f].fqn; }
static void heading(Txt &t, unsigned f) { for (unsigned k = 0; k < 10; k++) if (width(f, k)) { static Txt c; c.n = 0; put(c, HEAD[k]); cell_(t, c, width(f, k)); } put(t, "\n"); }
static void rule(Txt &t, unsigned f) { for (unsigned k = 0; k < 10; k++) if (width(f, k)) { static Txt c; c.n = 0; cell_(t, c, width(f, k), '-'); } put(t, "\n"); }
static void props(Txt &c, uint32_t tag, uint32_t p, uint64_t q) {
    bool some = false; if (tag == 0 || tag > 18) return; for (unsigned i = 0; i < 15; i++) if (p & PROP[i].p) { if (some) put(c, ","); some = true; put(c, PROP[i].n); }
    const char *k = 0; if (tag == _decl_set || tag == _decl_enum || tag == _decl_pointer || tag == _decl_intrinsic || (tag == _decl_field && (p & _decl_bitfield))) k = "width="; else if (tag == _decl_array) k = "size="; else if (tag == _decl_constant || tag == _decl_value) k = "value="; else if (tag == _decl_function) k = "addr=0x";
    if (k) { if (some) put(c, ","); put(c, k); num(c, q, tag == _decl_function ? 16 : 10); }
}
static void row(Txt &t, unsigned f, decl_db *db, decl_index *ix, unsigned i) {
    decl_node *d = db->decl + i; uint32_t tag = d->_tag; const char *T = tag < 19 ? TAG[tag] : "<unknown>";
    for (unsigned k = 0; k < 10; k++) if (width(f, k)) {
        static Txt c; c.n = 0;
        switch (k) {
        case 0: num(c, i, 10); break; case 1: num(c, d->_attr, 10); break; case 2: num(c, d->_next, 10); break; case 3: num(c, d->_link, 10); break; case 4: put(c, T); break;
        case 5: put(c, d->_name ? db->name + d->_name : "(anonymous)"); break; case 6: props(c, tag, d->_props, d->_quantity); break;
        case 7: { decl_node *l = db->decl + d->_link; put(c, l->_tag < 19 ? TAG[l->_tag] : "<unknown>"); put(c, "(\""); put(c, l->_name ? db->name + l->_name : "anonymous"); put(c, "\")"); break; }
        case 8: for (unsigned j = 0; j < 28; j++) { uint8_t b = ix->entry[i].hash.sum[j]; c.b[c.n++] = "0123456789abcdef"[b >> 4]; c.b[c.n++] = "0123456789abcdef"[b & 15]; } break;
        case 9: { unsigned a = tag == _decl_alias ? d->_link : i; put(c, db->decl[a]._tag < 19 ? TAG[db->decl[a]._tag] : "<unknown>"); put(c, " "); put(c, ix->name + ix->entry[a].fqn); break; }
        }
        cell_(t, c, width(f, k));
    }
    put(t, "\n");
}
static void node(decl_db *db, unsigned i, uint32_t tag, const char *name, uint32_t props, uint64_t q, unsigned next, unsigned link, unsigned attr) { decl_node *d = db->decl + i; decl_id nm = crefl_name_new(db, name); d->_tag = tag; d->_props = props; d->_name = nm; d->_quantity = q; d->_next = next; d->_link = link; d->_attr = attr; }
static void dumped(decl_db *db, unsigned f) {
    static Txt t; t.n = 0; decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); crefl_entry_ref(ix, decl_ref{ db, (size_t)db->decl_offset }); heading(t, f); rule(t, f); for (unsigned i = db->root_element; i < db->decl_offset; i++) row(t, f, db, ix, i); rule(t, f); crefl_index_destroy(ix);
    cx_readonly(db); cx_readonly(db->decl); cx_readonly(db->name); cx_set("capture", 1); cx_out_reset(); crefl_db_set_dump_fmt((crefl_db_dump_fmt)f); crefl_db_dump(db); printed(t, "the dump is a heading, one row per declaration from the root on, and rules"); cx_writable(db); cx_writable(db->decl); cx_writable(db->name);
}
static decl_db *table(unsigned n) { decl_db *db = crefl_db_new(); for (unsigned i = 1; i < n; i++) crefl_decl_new(db, 0); return db; }
// one declaration of each kind, with each property, name length and quantity
CX_DRIVER(D01, kind, 320) {
    unsigned tag = cell % 20, v = cell / 20; decl_db *db = table(12 + v); unsigned i = 11 + v; uint32_t p = v < 15 ? PROP[v].p : 0; if (v == 7) p |= _decl_bitfield | _decl_default; if (v == 13) p |= _decl_bitfield | _decl_sint | _decl_pad_pow2; if (v == 14) p = ~0u; node(db, 3, v % 3 == 1 ? _decl_pointer : _decl_intrinsic, NAMES[(v + 3) % 8], 0, 32, 0, v % 3 == 1 ? 4 : 0, 0); node(db, 4, _decl_intrinsic, "int", 0, 32, 0, 0, 0); node(db, 5, _decl_attribute, "at", 0, 0, 0, 0, 0); node(db, i, tag < 19 ? tag : 19 + v * 1000, NAMES[v % 8], p, QTY[(tag + v) % 5], v % 2 ? 4 : 0, v % 4 < 3 ? 3 : 0, v % 5 == 1 ? 5 : 0);
    db->root_element = i; dumped(db, v % 8); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "the dump frees what it allocates");
}
// a whole graph in each format: nested and qualified names, aliases, more rows than the index starts with
CX_DRIVER(D01, graph, 8) {
    cx_set("states", 400000);
    decl_db *db = table(46); db->root_element = 8; node(db, 8, _decl_archive, "lib", 0, 0, 0, 9, 0); node(db, 9, _decl_source, "src", 0, 0, 10, 11, 0); node(db, 10, _decl_source, "two", 0, 0, 0, 14, 0); node(db, 11, _decl_struct, "node", 0, 0, 0, 12, 0); node(db, 12, _decl_field, "next", 0, 0, 44, 13, 0); node(db, 13, _decl_pointer, "", 0, 64, 0, 11, 0); node(db, 14, _decl_alias, "node", 0, 0, 43, 11, 0); node(db, 43, _decl_function, "main", _decl_global | _decl_default, 4096, 0, 45, 0); node(db, 44, _decl_field, "bits", _decl_bitfield, 3, 0, 3, 0); node(db, 45, _decl_param, "", _decl_out, 0, 0, 3, 0); node(db, 3, _decl_intrinsic, "int", _decl_sint, 32, 0, 0, 0);
    dumped(db, cell); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "the dump frees what it allocates");
}
// rows that the root does not reach have no digest; looking them up may move the index
CX_DRIVER(D01, unreached, 8) {
    cx_set("states", 400000); decl_db *db = table(72); db->root_element = 32; node(db, 32, _decl_source, "src", 0, 0, 0, 0, 0); node(db, 33, _decl_alias, "far", 0, 0, 0, 70, 0); node(db, 70, _decl_struct, "far", 0, 0, 0, 0, 0); node(db, 71, _decl_alias, "", _decl_local, 0, 0, 32, 0); dumped(db, cell); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "the dump frees what it allocates");
}
// tables of hundreds of rows, and indexes of four and more digits
CX_DRIVER(D01, large, 10) {
    static const unsigned N[10] = { 1010, 10010, 230, 10024, 130, 101, 1030, 10040, 72, 260 }, ROOT[10] = { 990, 9990, 8, 9999, 4, 95, 1000, 10001, 60, 250 }; unsigned n = N[cell], r = ROOT[cell], k = 0; maxlogs = 800; cx_set("states", 6000000); decl_db *db = table(n); db->root_element = r;
    node(db, r, _decl_source, "src", 0, 0, 0, r + 1, 0); for (unsigned i = r + 1; i < n; i++, k++) { bool last = i + 1 == n; switch (k % 4) { case 0: node(db, i, _decl_struct, "S", 0, 0, last ? 0 : i + 1, 0, 0); break; case 1: node(db, i, _decl_typedef, NAMES[k % 8], _decl_global, 0, last ? 0 : i + 1, r - 1, k % 8 == 1 ? r - 2 : 0); break; case 2: node(db, i, _decl_alias, "S", 0, 0, last ? 0 : i + 1, i - 2, 0); break; case 3: node(db, i, _decl_function, NAMES[k / 4 % 8], _decl_default, 256ull * k, last ? 0 : i + 1, 0, 0); break; } }
    node(db, r - 1, _decl_intrinsic, "int", _decl_sint, 32, 0, 0, 0); node(db, r - 2, _decl_attribute, "at", 0, 0, 0, 0, 0); dumped(db, n - r > 50 ? cell % 2 * 4 : cell % 8); crefl_db_destroy(db); cx_assert(cx_heap_live() == 0, "the dump frees what it allocates");
}
// sizes
CX_DRIVER(D01, stats, 3) { cx_set("capture", 1); decl_db *db = fresh(); for (unsigned i = 0; i < cell * 7; i++) node(db, crefl_decl_idx(crefl_decl_new(db, 0)), _decl_struct, NAMES[i % 8], 0, 0, 0, 0, 0); Txt t; t.n = 0; uint64_t b = db->decl_builtin, n = db->decl_offset - b; put(t, "decl.builtin "); num(t, 32 * b, 10); put(t, " bytes ("); num(t, b, 10); put(t, " records)\ndecl.user    "); num(t, 32 * n, 10); put(t, " bytes ("); num(t, n, 10); put(t, " records)\nname.builtin "); num(t, db->name_builtin, 10); put(t, " bytes\nname.user    "); num(t, db->name_offset - db->name_builtin, 10); put(t, " bytes\nfile.size    "); num(t, crefl_db_size(db), 10); put(t, " bytes\n"); cx_out_reset(); crefl_db_dump_stats(db); printed(t, "the statistics are those of the tables and the image"); }
