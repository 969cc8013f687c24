#include "db.h"
#include <crefl/link.h>
// L01: the digest of a declaration covers exactly its kind, name, properties, quantity, and the digests of its attributes and children in order.
// SHA-224 is replaced by a recorder: each message gets a digest of its own, so a digest in a message identifies the message behind it.
static struct Log { const void *ctx; unsigned n; unsigned cap; uint8_t *b; } logs[320]; static unsigned nlogs, nfinal; static int final_log[320];
static void need(uint8_t *&b, unsigned &cap, unsigned n) { if (n <= cap) return; unsigned c = cap ? cap : 256; while (c < n) c *= 4; uint8_t *q = (uint8_t*)cx_object(c, 0, "octets"); for (unsigned i = 0; i < cap; i++) q[i] = b[i]; b = q; cap = c; }
static Log *live(const void *c) { for (unsigned i = nlogs; i--;) if (logs[i].ctx == c) return &logs[i]; cx_fail("a digest context is used before its initialisation or after its end"); }
static void digest(unsigned id, uint8_t *out) { for (unsigned i = 0; i < 28; i++) out[i] = (uint8_t)(id * 29 + i * 5 + 3 + (i == 27 ? id >> 8 : 0)); }
CX_STUB(L01, void, sha224_init)(sha256_ctx *c) { cx_assert(nlogs < 320, "each declaration is digested once"); logs[nlogs].ctx = c; logs[nlogs++].n = 0; }
CX_STUB(L01, void, sha256_update)(sha256_ctx *c, const void *p, size_t n) { Log *l = live(c); cx_assert(l->n + n <= 8000, "messages are as short as the template"); need(l->b, l->cap, l->n + n); for (size_t i = 0; i < n; i++) l->b[l->n + i] = ((const uint8_t*)p)[i]; l->n += n; }
CX_STUB(L01, void, sha256_final)(sha256_ctx *c, unsigned char *out) { Log *l = live(c); l->ctx = 0; final_log[nfinal] = l - logs; digest(nfinal++, out); }
static Log *message(decl_index *ix, unsigned node) { const uint8_t *s = ix->entry[node].hash.sum; uint8_t d[28]; for (unsigned i = 0; i < nfinal; i++) { if (s[0] != (uint8_t)(i * 29 + 3)) continue; digest(i, d); bool same = true; for (unsigned k = 0; k < 28; k++) same &= s[k] == d[k]; if (same) return &logs[final_log[i]]; } cx_fail("the digest of a declaration is that of a message"); }
// the documented template
struct Msg { unsigned n, cap; uint8_t *b; Msg() : n(0), cap(0), b(0) {} };
static void put(Msg &m, const char *s) { while (*s) { need(m.b, m.cap, m.n + 1); m.b[m.n++] = *s++; } }
static void raw(Msg &m, const void *p, unsigned n) { need(m.b, m.cap, m.n + n); for (unsigned i = 0; i < n; i++) m.b[m.n++] = ((const uint8_t*)p)[i]; }
static const char *TAG[19] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
static bool list_kind(unsigned t) { return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }
static void head(Msg &m, decl_db *db, unsigned i, unsigned tag, const char *name) { decl_node *d = db->decl + i; m.n = 0; put(m, "(T="); put(m, tag < 19 ? TAG[tag] : "<unknown>"); put(m, ";N="); put(m, name); put(m, ";P="); raw(m, &d->_props, 4); put(m, ";Q="); raw(m, &d->_quantity, 8); }
static void sub(Msg &m, decl_index *ix, unsigned i, const char *lead) { put(m, lead); put(m, ";H="); raw(m, ix->entry[i].hash.sum, 28); }
static void same(decl_index *ix, unsigned node, Msg &m) { Log *l = message(ix, node); cx_assert(l->n == m.n, "the message has the documented parts"); for (unsigned i = 0; i < m.n; i++) cx_assert(l->b[i] == m.b[i], "the message has the documented parts"); cx_assert(crefl_entry_is_valid(decl_entry_ref{ ix, node }) && crefl_entry_is_marked(decl_entry_ref{ ix, node }), "a scanned declaration is marked valid"); }
static void set(decl_db *db, unsigned i, unsigned tag, unsigned name, unsigned next, unsigned link, unsigned attr) { decl_node *d = db->decl + i; d->_tag = tag; d->_name = name; d->_next = next; d->_link = link; d->_attr = attr; }
// one declaration of each kind with attributes and children of any content
CX_DRIVER(L01, node, 240) {
    unsigned tag = cell % 20, nl = cell / 20 % 4, na = cell / 80; char names[8] = { 0, 'a', 'b', 0, 'c', 0, 'd', 0 }; for (unsigned i = 1; i < 7; i++) if (names[i]) { names[i] = (char)cx_u8("letter"); cx_assume(names[i] != 0); }
    decl_db *db = graph(12, names, 8); uint32_t t = tag < 19 ? tag : cx_u32("tag"); if (tag == 19) cx_assume(t > 18); db->root_element = 1; set(db, 1, t, tag % 2 ? 1 : 0, 11, nl ? 2 : 0, na ? 5 : 0);
    for (unsigned i = 0; i < 3; i++) set(db, 2 + i, i == 1 ? _decl_constant : _decl_intrinsic, i == 0 ? 4 : i == 1 ? 0 : 2, i + 1 < nl ? 3 + i : 0, 0, 0); for (unsigned i = 0; i < 2; i++) set(db, 5 + i, _decl_attribute, 6, i + 1 < na ? 6 + i : 0, i ? 0 : 7, 0); set(db, 7, _decl_value, 4, 8, 0, 0); for (unsigned i = 8; i < 12; i++) set(db, i, _decl_value, 1, 0, 0, 0);
    cx_readonly(db); cx_readonly(db->decl); cx_readonly(db->name); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); Msg m;
    bool all = list_kind(tag); for (unsigned i = 0; i < nl && (all || !i); i++) { head(m, db, 2 + i, i == 1 ? _decl_constant : _decl_intrinsic, i == 0 ? names + 4 : i == 1 ? "" : names + 2); put(m, ")"); same(ix, 2 + i, m); }
    for (unsigned i = 0; i < na; i++) { head(m, db, 5 + i, _decl_attribute, names + 6); if (!i) sub(m, ix, 7, ""); put(m, ")"); same(ix, 5 + i, m); } if (na) { head(m, db, 7, _decl_value, names + 4); put(m, ")"); same(ix, 7, m); }
    head(m, db, 1, tag, tag % 2 ? names + 1 : ""); for (unsigned i = 0; i < na; i++) sub(m, ix, 5 + i, ";A="); if (nl && all) { put(m, ";L="); for (unsigned i = 0; i < nl; i++) sub(m, ix, 2 + i, ";X="); } else if (nl) sub(m, ix, 2, ""); put(m, ")"); same(ix, 1, m);
    cx_assert(nfinal == 1 + (all ? nl : nl ? 1 : 0) + na + (na ? 1 : 0), "each declaration reached is digested once"); unsigned used = nfinal; crefl_index_scan(ix, db); cx_assert(nfinal == used, "digests are kept");
    for (unsigned i = 8; i < 12; i++) cx_assert(!crefl_entry_is_valid(decl_entry_ref{ ix, i }) && !crefl_entry_is_marked(decl_entry_ref{ ix, i }), "declarations that are not reached have no digest");
    crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed");
}
// cycles: a reference to a declaration being digested contributes its kind and name
CX_DRIVER(L01, cycle, 6) {
    static const unsigned K[6] = { _decl_struct, _decl_union, _decl_function, _decl_enum, _decl_source, _decl_set }; decl_db *db = graph(8, "\0node\0next\0src", 15);
    set(db, 1, _decl_source, 11, 0, 2, 0); set(db, 2, K[cell], 1, 0, 3, 0); set(db, 3, _decl_field, 6, 5, 4, 0); set(db, 4, _decl_pointer, 0, 2, 2, 0); set(db, 5, _decl_field, 1, 0, 6, 0); set(db, 6, _decl_array, 0, 0, 4, 0); set(db, 7, _decl_pointer, 0, 0, 2, 0);
    db->root_element = 1; cx_readonly(db); cx_readonly(db->decl); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); Msg m;
    head(m, db, 4, _decl_pointer, ""); put(m, TAG[K[cell]]); put(m, "node)"); same(ix, 4, m); head(m, db, 3, _decl_field, "next"); sub(m, ix, 4, ""); put(m, ")"); same(ix, 3, m); head(m, db, 6, _decl_array, ""); sub(m, ix, 4, ""); put(m, ")"); same(ix, 6, m); head(m, db, 5, _decl_field, "node"); sub(m, ix, 6, ""); put(m, ")"); same(ix, 5, m);
    head(m, db, 2, K[cell], "node"); put(m, ";L="); sub(m, ix, 3, ";X="); sub(m, ix, 5, ";X="); put(m, ")"); same(ix, 2, m); head(m, db, 1, _decl_source, "src"); put(m, ";L="); sub(m, ix, 2, ";X="); put(m, ")"); same(ix, 1, m); cx_assert(nfinal == 6, "each declaration reached is digested once");
    crefl_index_destroy(ix);
}
// qualified names: the path of named ancestors below the source
static void fqn(decl_index *ix, unsigned i, const char *s) { cx_assert(!strcmp(crefl_entry_fqn(decl_entry_ref{ ix, i }), s), "the qualified name is the path of the names above, from below the source"); }
CX_DRIVER(L01, names, 4) {
    decl_db *db = graph(16, "\0lib\0src\0S\0f\0g\0inner\0T", 23); const unsigned lib = 1, src = 5, S = 9, f = 11, g = 13, inner = 15, T = 21; unsigned top = cell & 1 ? 1 : 2, K = cell & 2 ? _decl_union : _decl_struct;
    set(db, 1, _decl_archive, lib, 0, 2, 0); set(db, 2, _decl_source, src, 0, 3, 0); set(db, 3, K, S, 10, 4, 0); set(db, 4, _decl_field, f, 5, 6, 0); set(db, 5, _decl_field, g, 0, 8, 0); set(db, 6, _decl_pointer, 0, 0, 7, 0); set(db, 7, K, inner, 0, 9, 0); set(db, 8, _decl_array, 0, 0, 12, 0); set(db, 9, _decl_field, f, 0, 13, 0); set(db, 10, _decl_typedef, T, 0, 11, 0); set(db, 11, K, 0, 0, 14, 0); set(db, 12, _decl_intrinsic, 0, 0, 0, 0); set(db, 13, _decl_intrinsic, lib, 0, 0, 0); set(db, 14, _decl_field, g, 0, 13, 0); set(db, 15, _decl_field, g, 0, 13, 0);
    db->root_element = top; cx_readonly(db); cx_readonly(db->decl); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
    if (cell & 1) fqn(ix, 1, "lib"); fqn(ix, 2, "src"); fqn(ix, 3, "S"); fqn(ix, 4, "S::f"); fqn(ix, 5, "S::g"); fqn(ix, 6, "S::f"); fqn(ix, 7, "S::f::inner"); fqn(ix, 8, "S::g"); fqn(ix, 9, "S::f::inner::f"); fqn(ix, 10, "T"); fqn(ix, 11, "T"); fqn(ix, 12, "S::g"); fqn(ix, 13, "S::f::inner::f::lib"); fqn(ix, 14, "T::g"); fqn(ix, 15, ""); crefl_index_destroy(ix);
}
// declarations far apart: the index grows while they are digested
CX_DRIVER(L01, far, 4) {
    unsigned k = 9 + cell * 14; decl_db *db = graph(8 * k, "\0node\0next", 11); set(db, k, _decl_source, 6, 0, 2 * k, 0); set(db, 2 * k, _decl_struct, 1, 0, 3 * k, 0); set(db, 3 * k, _decl_field, 6, 5 * k, 4 * k, 7 * k); set(db, 4 * k, _decl_pointer, 0, 0, 2 * k, 0); set(db, 5 * k, _decl_field, 1, 0, 6 * k, 0); set(db, 6 * k, _decl_array, 0, 0, 1, 0); set(db, 7 * k, _decl_attribute, 1, 0, 0, 0); set(db, 1, _decl_intrinsic, 6, 0, 0, 0);
    db->root_element = k; cx_readonly(db); cx_readonly(db->decl); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); Msg m;
    head(m, db, 1, _decl_intrinsic, "next"); put(m, ")"); same(ix, 1, m); head(m, db, 7 * k, _decl_attribute, "node"); put(m, ")"); same(ix, 7 * k, m); head(m, db, 4 * k, _decl_pointer, ""); put(m, "structnode)"); same(ix, 4 * k, m); head(m, db, 3 * k, _decl_field, "next"); sub(m, ix, 7 * k, ";A="); sub(m, ix, 4 * k, ""); put(m, ")"); same(ix, 3 * k, m); head(m, db, 6 * k, _decl_array, ""); sub(m, ix, 1, ""); put(m, ")"); same(ix, 6 * k, m); head(m, db, 5 * k, _decl_field, "node"); sub(m, ix, 6 * k, ""); put(m, ")"); same(ix, 5 * k, m);
    head(m, db, 2 * k, _decl_struct, "node"); put(m, ";L="); sub(m, ix, 3 * k, ";X="); sub(m, ix, 5 * k, ";X="); put(m, ")"); same(ix, 2 * k, m); head(m, db, k, _decl_source, "next"); put(m, ";L="); sub(m, ix, 2 * k, ";X="); put(m, ")"); same(ix, k, m); cx_assert(nfinal == 8, "each declaration reached is digested once"); crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed");
}
// the index grows without losing entries
CX_DRIVER(L01, grow, 20) { decl_index *ix = crefl_index_new(); decl_db *db = graph(2, "", 1); for (unsigned i = 0; i < 32; i++) { ix->entry[i].fqn = cx_u32("fqn"); ix->entry[i].props = cx_u32("props"); } decl_entry keep[32]; memcpy(keep, ix->entry, sizeof keep); uint64_t at = cell < 5 ? cx_u64_bits("index", cell + 1) : cell % 2 ? (1ull << (cell / 2 + 6)) - 1 : 1ull << (cell / 2 + 5); decl_entry_ref r = crefl_entry_ref(ix, decl_ref{ db, at });
    cx_assert(r.index == ix && r.offset == at && ix->entry_size > at && cx_object_size(ix->entry) >= ix->entry_size * sizeof(decl_entry), "the table holds every index referred to"); for (unsigned i = 0; i < 32; i++) cx_assert(ix->entry[i].fqn == keep[i].fqn && ix->entry[i].props == keep[i].props, "no entry is lost"); if (at >= 32) { decl_entry *e = crefl_entry_ptr(r); cx_assert(!e->props && !e->fqn && !crefl_entry_is_marked(r) && !crefl_entry_is_valid(r), "new entries are empty"); }
    crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed"); }
CX_DRIVER(L01, new_name, 12) {
    cx_set("states", 400000);
    // three short names each longer than the last; or names of 20 to 4000 octets among short ones, in growing and in shrinking order
    static const unsigned L[12][4] = { { 3, 6, 9, 12 }, { 6, 12, 18, 24 }, { 39, 78, 117, 156 }, { 31, 1, 31, 1 }, { 30, 1, 62, 3 }, { 100, 5, 300, 1 }, { 2, 200, 3, 9 }, { 70, 600, 1, 40 }, { 1000, 1, 2, 3 }, { 1, 30, 4000, 2 }, { 255, 256, 1, 511 }, { 129, 64, 32, 16 } };
    decl_index *ix = crefl_index_new(); unsigned at = 1; char *s[4]; unsigned off[4];
    for (unsigned k = 0; k < 4; k++) { unsigned n = L[cell][k]; s[k] = (char*)cx_object(n + 1, n > 60 ? 0 : 2, "name"); for (unsigned i = 0; i < n; i++) if (n > 60) s[k][i] = (char)('a' + (i + k) % 25); else cx_assume(s[k][i] != 0); s[k][n] = 0; off[k] = crefl_entry_name_new(ix, s[k]); at = off[k] + n + 1; cx_assert(off[k] && ix->name_size >= at && cx_object_size(ix->name) >= at, "a name is appended"); for (unsigned i = 0; i < k; i++) cx_assert(off[i] + L[cell][i] < off[k] || off[k] + n < off[i], "names have room of their own"); }
    cx_assert(crefl_entry_name_new(ix, "") == 0 && ix->name[0] == 0, "the empty name is offset 0"); for (unsigned k = 0; k < 4; k++) cx_assert(!strcmp(ix->name + off[k], s[k]), "names are kept"); crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed");
}
// long lists, long names and deep nesting: w children with a attributes each, names of n octets
CX_DRIVER(L01, large, 12) {
    static const unsigned W[12] = { 1, 2, 9, 17, 33, 40, 1, 3, 5, 20, 1, 2 }, A[12] = { 9, 17, 1, 0, 1, 0, 33, 5, 3, 2, 0, 40 }, N[12] = { 40, 300, 9, 65, 3, 17, 20, 130, 1000, 5, 700, 8 }, K[6] = { _decl_struct, _decl_union, _decl_function, _decl_enum, _decl_source, _decl_set };
    unsigned w = W[cell], a = A[cell], n = N[cell], per = 1 + a, total = 2 + 2 * w + a; char *names = (char*)cx_object(2 * n + 3, 1, "names"); names[0] = 0; for (unsigned i = 0; i < 2 * n + 2; i++) names[1 + i] = i == n || i == 2 * n + 1 ? 0 : (char)('a' + (i * 7 + i / 26) % 26);
    (void)per; decl_db *db = graph(total, names, 2 * n + 3); const char *one = names + 1, *two = names + n + 2; unsigned lst = 2, typ = 2 + w, att = 2 + 2 * w; db->root_element = 1; set(db, 1, K[cell % 6], 1, 0, lst, a ? att : 0);
    for (unsigned i = 0; i < w; i++) { set(db, lst + i, _decl_field, i % 3 ? n + 2 : 1, i + 1 < w ? lst + i + 1 : 0, typ + i, i + 1 == w && a ? att : 0); set(db, typ + i, i % 2 ? _decl_intrinsic : _decl_pointer, i % 2 ? n + 2 : 0, 0, i % 2 ? 0 : 1, 0); } for (unsigned i = 0; i < a; i++) set(db, att + i, _decl_attribute, i % 2 ? 1 : n + 2, i + 1 < a ? att + i + 1 : 0, 0, 0);
    cx_readonly(db); cx_readonly(db->decl); cx_readonly(db->name); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); Msg m; unsigned top = K[cell % 6];
    for (unsigned i = 0; i < a; i++) { head(m, db, att + i, _decl_attribute, i % 2 ? one : two); put(m, ")"); same(ix, att + i, m); }
    for (unsigned i = 0; i < w; i++) { head(m, db, typ + i, i % 2 ? _decl_intrinsic : _decl_pointer, i % 2 ? two : ""); if (i % 2 == 0) { put(m, TAG[top]); put(m, one); } put(m, ")"); same(ix, typ + i, m); head(m, db, lst + i, _decl_field, i % 3 ? two : one); if (i + 1 == w) for (unsigned k = 0; k < a; k++) sub(m, ix, att + k, ";A="); sub(m, ix, typ + i, ""); put(m, ")"); same(ix, lst + i, m); }
    head(m, db, 1, top, one); for (unsigned k = 0; k < a; k++) sub(m, ix, att + k, ";A="); put(m, ";L="); for (unsigned i = 0; i < w; i++) sub(m, ix, lst + i, ";X="); put(m, ")"); same(ix, 1, m);
    cx_assert(nfinal == 1 + 2 * w + a, "each declaration reached is digested once"); crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed");
}
// qualified names of many parts and of long parts
CX_DRIVER(L01, path, 8) {
    static const unsigned D[8] = { 1, 2, 5, 9, 12, 3, 2, 4 }, N[8] = { 300, 33, 9, 5, 3, 129, 400, 64 }; unsigned d = D[cell], n = N[cell]; char *names = (char*)cx_object(n + 4, 1, "names"); names[0] = 0; for (unsigned i = 0; i < n; i++) names[1 + i] = (char)('a' + i % 26); names[n + 1] = 0; names[n + 2] = 's'; names[n + 3] = 0;
    // source s { struct { field -> struct { field -> ... intrinsic } } } where every name below the source is the long one
    decl_db *db = graph(3 + 2 * d, names, n + 4); set(db, 1, _decl_source, n + 2, 0, 2, 0); for (unsigned i = 0; i < d; i++) { set(db, 2 + 2 * i, i % 2 ? _decl_union : _decl_struct, 1, 0, 3 + 2 * i, 0); set(db, 3 + 2 * i, _decl_field, 1, 0, 4 + 2 * i, 0); } set(db, 2 + 2 * d, _decl_intrinsic, 1, 0, 0, 0);
    db->root_element = 1; cx_readonly(db); cx_readonly(db->decl); decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); fqn(ix, 1, "s");
    for (unsigned i = 2; i < 3 + 2 * d; i++) { unsigned parts = i - 1; const char *f = crefl_entry_fqn(decl_entry_ref{ ix, i }); unsigned at = 0; for (unsigned p = 0; p < parts; p++) { if (p) { cx_assert(f[at] == ':' && f[at + 1] == ':', "the qualified name is the path of the names above, from below the source"); at += 2; } for (unsigned k = 0; k < n; k++) cx_assert(f[at + k] == names[1 + k], "the qualified name is the path of the names above, from below the source"); at += n; } cx_assert(f[at] == 0, "the qualified name is the path of the names above, from below the source"); }
    crefl_index_destroy(ix); cx_assert(cx_heap_live() == 0, "the index is freed");
}
