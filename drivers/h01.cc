#include "cx_api.h"
#include <crefl/hashmap.h>
// H01: the hash map is a finite map. Every operation is applied to every well formed table of the given capacity
// (slot states, home slots and key order enumerated; keys and values unknown) and must yield the table of the
// updated map: each entry once, reachable from its home slot, counters exact, a free slot left.
struct ident { size_t operator()(uint64_t k) const { return k; } };
typedef hashmap<uint64_t, uint64_t, ident> Map;
enum { AV = 0, OC = 1, DE = 2, RE = 3 };
struct Ent { uint64_t k, v; };
struct Abs { Ent e[160]; unsigned n; };
#include "h01_tab.h"
// a table of capacity L in the state `code` describes (h01_gen.py)
static void build(Map &h, unsigned L, uint32_t code, Abs &a) {
    unsigned lg = 0; while ((1u << lg) < L) lg++; a.n = 0; unsigned used = 0, tombs = 0;
    for (unsigned i = 0; i < L; i++, code >>= 4) if (unsigned c = code & 15) {
        unsigned st = DE; if (c == 1) tombs++; else { used++; st = c & 1 ? RE : OC; uint64_t k = cx_sym("key", 64 - lg) << lg | ((i + L - (c - 2) / 2) & (L - 1)); for (unsigned j = 0; j < a.n; j++) cx_assume(a.e[j].k != k);
            a.e[a.n].k = k; a.e[a.n].v = cx_u64("value"); h.data[i].first = k; h.data[i].second = a.e[a.n].v; a.n++; }
        h.bitmap[i / 32] |= (uint64_t)st << (i % 32 * 2);
    }
    h.used = used; h.tombs = tombs;
}
static unsigned st(Map &h, unsigned i) { return h.bitmap[i / 32] >> (i % 32 * 2) & 3; }
// the table represents exactly the map `a`
static void check(Map &h, Abs &a) {
    unsigned L = h.limit, used = 0, tombs = 0; cx_assert(L && !(L & (L - 1)), "the capacity is a power of two"); bool seen[160]; for (unsigned j = 0; j < a.n; j++) seen[j] = false;
    for (unsigned i = 0; i < L; i++) { unsigned s = st(h, i); if (s == DE) { tombs++; cx_assert(h.data[i].second == 0, "a deleted slot is cleared for reuse"); } if (s == AV) cx_assert(h.data[i].second == 0, "a free slot holds a zero value"); if (!(s & OC)) continue; used++;
        bool hit = false; for (unsigned j = 0; j < a.n; j++) if (h.data[i].first == a.e[j].k) { cx_assert(!seen[j], "no key occurs twice"); seen[j] = true; hit = true; cx_assert(h.data[i].second == a.e[j].v, "each key has its value"); }
        cx_assert(hit, "only keys of the map are present"); unsigned home = h.data[i].first & (L - 1); for (unsigned j = home; j != i; j = (j + 1) & (L - 1)) cx_assert(st(h, j) != AV, "every key is reachable from its home slot");
    }
    for (unsigned j = 0; j < a.n; j++) cx_assert(seen[j], "no key is lost"); cx_assert(h.used == used && h.size() == a.n, "the size is the number of keys"); cx_assert(h.tombs == tombs, "deleted slots are counted");
    cx_assert((used + tombs) * 2 <= L, "at most half of the slots are in use");
}
// a key: one of those present (which < n) or a different one with the given home
static uint64_t key(Abs &a, unsigned L, unsigned which) { if (which < a.n) return a.e[which].k; which -= a.n; if (which >= L) cx_done(); unsigned lg = 0; while ((1u << lg) < L) lg++; uint64_t k = cx_sym("query", 64 - lg) << lg | which; for (unsigned j = 0; j < a.n; j++) cx_assume(a.e[j].k != k); return k; }
static void put(Abs &a, uint64_t k, uint64_t v, unsigned which) { if (which < a.n) a.e[which].v = v; else { a.e[a.n].k = k; a.e[a.n].v = v; a.n++; } }
static void del(Abs &a, unsigned which) { if (which < a.n) { for (unsigned j = which; j + 1 < a.n; j++) a.e[j] = a.e[j + 1]; a.n--; } }
// operations on whole tables
static void whole(Map &h, unsigned L, Abs &a, unsigned o) {
    Map *m = &h; uint64_t v = cx_u64("new value");
    if (o == 4) { h.clear(); a.n = 0; check(h, a); cx_assert(h.limit == L, "clearing keeps the capacity"); }
    else if (o == 5) { unsigned n = 0; for (auto i = h.begin(); i != h.end(); ++i) { bool hit = false; for (unsigned j = 0; j < a.n; j++) if (i->first == a.e[j].k) { hit = true; cx_assert(i->second == a.e[j].v, "iteration yields the values"); } cx_assert(hit, "iteration visits only entries"); for (auto k = h.begin(); k != i; k++) cx_assert((*k).first != i->first, "iteration visits no entry twice"); n++; } cx_assert(n == a.n, "iteration visits every entry"); }
    else if (o == 6) { Map g(h); check(g, a); cx_assert(g == h && !(g != h), "a copy is equal"); if (a.n) { g[a.e[0].k] = a.e[0].v + 1; cx_assert(g != h, "a copy is independent"); g.erase(a.e[0].k); cx_assert(!(g == h) && !(h == g), "maps with different keys differ"); } }
    else if (o == 7) { Map g(2); g[cx_u64("other")] = 1; g = h; check(g, a); g = g; check(g, a); if (a.n) { g[a.e[0].k] = v; Abs b = a; b.e[0].v = v; check(g, b); } }
    else if (o == 8) { Map g(std::move(h)); check(g, a); }
    else { Map g(4); g[cx_u64("other")] = 1; Map &s = g; g = std::move(h); check(g, a); s = std::move(g); check(g, a); h = g; check(h, a); }
    if (o != 8) check(h, a);
}
static void op_(unsigned L, uint32_t code, unsigned o, unsigned which) {
    cx_set("disj", 256); Map h(L); Abs a; build(h, L, code, a); Map *m = &h; uint64_t v = cx_u64("new value");
    if (o < 4) {
        uint64_t k = key(a, L, which);
        if (o == 0) { auto i = h.find(k); if (which < a.n) { cx_assert(i != h.end(), "a key that is present is found"); cx_assert(i->first == k && i->second == a.e[which].v, "the entry found is the key's"); } else cx_assert(i == h.end(), "a key that is absent is not found"); }
        else if (o == 1) { auto i = h.insert(k, v); put(a, k, v, which); cx_assert(i.h == m && i->first == k && i->second == v, "insertion returns the entry"); }
        else if (o == 2) { uint64_t &r = h[k]; cx_assert(r == (which < a.n ? a.e[which].v : 0), "indexing yields the value, zero for a new key"); r = v; put(a, k, v, which); }
        else { h.erase(k); del(a, which); }
    } else { if (which) cx_done(); whole(h, L, a, o); }
    if (o < 4) check(h, a);
}
static void op(unsigned L, uint32_t code, unsigned o, unsigned which) { op_(L, code, o, which); cx_assert(cx_heap_live() == 0, "every table is freed exactly once"); }
// operations with a key (find, insert, index, erase), then those on whole tables
CX_DRIVER(H01, cap1, 10) { op(1, tab1[0], cell, 0); }
CX_DRIVER(H01, cap2, 119) { unsigned c = cell % 7; cell /= 7; if (cell < 12) op(2, tab2[c], cell / 3, cell % 3); else { op(2, tab2[c], 4 + cell - 12, 0); } }
CX_DRIVER(H01, cap4, 2730) { unsigned c = cell % 91; cell /= 91; if (cell < 24) op(4, tab4[c], cell / 6, cell % 6); else op(4, tab4[c], 4 + cell - 24, 0); }
CX_DRIVER(H01, third_cap8, 72018) { cell = cell * 3 + cell % 3; unsigned c = cell % 4001; cell /= 4001; if (cell < 48) op(8, tab8q[c], cell / 12, cell % 12); else op(8, tab8q[c], 4 + cell - 48, 0); }
CX_DRIVER(H01, all_cap8, 216054) { unsigned c = cell % 4001; cell /= 4001; if (cell < 48) op(8, tab8q[c], cell / 12, cell % 12); else op(8, tab8q[c], 4 + cell - 48, 0); }
// Larger tables: an operation without growth sees only the run of slots from the key's home to the first free slot or the key.
// Slots outside the run are unknown and must not change.
static const unsigned POS[25] = { 0, 15, 29, 30, 31, 32, 33, 61, 62, 63, 1, 13, 16, 28, 34, 47, 60, 64, 65, 94, 95, 96, 124, 126, 127 };
static void runs(unsigned L, unsigned p, unsigned cell) {
    if (p >= L) cx_done(); unsigned o = cell % 4, cfg = cell / 4, r = 0; // 62 runs: length r <= 4, state per slot, how it ends
    bool match = cfg >= 31; cfg %= 31; while (cfg >= (2u << r) - 1) r++; cfg -= (1u << r) - 1; unsigned lg = L == 32 ? 5 : L == 64 ? 6 : 7, W = L / 32;
    Map h(L); cx_havoc(h.data, L * sizeof(Map::data_type)); uint64_t b0[4]; for (unsigned i = 0; i < W; i++) b0[i] = cx_u64("slots"); uint64_t k = cx_sym("query", 64 - lg) << lg | p, v = cx_u64("new value"); unsigned first = 0; bool tomb = false;
    for (unsigned j = 0; j <= r; j++) { unsigned i = (p + j) & (L - 1); uint64_t m = (uint64_t)3 << (i % 32 * 2), s; if (j == r && !match) { s = AV; h.data[i].second = 0; } else if (j < r && (cfg >> j & 1)) { s = DE; h.data[i].second = 0; if (!tomb) { tomb = true; first = i; } } else { s = cx_bool("reused") ? RE : OC; if (j == r) h.data[i].first = k; else cx_assume(h.data[i].first != k); } b0[i / 32] = (b0[i / 32] & ~m) | s << (i % 32 * 2); }
    unsigned e = (p + r) & (L - 1); uint64_t u = cx_sym("used", 20), t = cx_sym("deleted", 20); cx_assume(u + t + 1 <= L / 2 && u >= 1 && t >= tomb); h.used = u; h.tombs = t; for (unsigned i = 0; i < W; i++) h.bitmap[i] = b0[i]; uint64_t dk[128], dv[128]; for (unsigned i = 0; i < L; i++) { dk[i] = h.data[i].first; dv[i] = h.data[i].second; }
    unsigned ch = L; uint64_t ns = 0, nk = k, nv = v; // the slot that changes
    if (o == 0) { auto i = h.find(k); cx_assert(match ? i.i == e : i == h.end(), "the key is found at its slot, or not at all"); }
    else if (o == 1) { auto i = h.insert(k, v); ch = match || !tomb ? e : first; cx_assert(i.i == ch, "insertion returns the entry"); }
    else if (o == 2) { uint64_t &x = h[k]; ch = match || !tomb ? e : first; cx_assert(&x == &h.data[ch].second && x == (match ? dv[e] : 0), "indexing yields the value, zero for a new key"); x = v; }
    else { h.erase(k); if (match) { ch = e; ns = DE; nk = nv = 0; } }
    cx_assert(h.limit == L, "the capacity stays");
    for (unsigned i = 0; i < W; i++) { uint64_t m = ch / 32 == i ? (uint64_t)3 << (ch % 32 * 2) : 0; cx_assert((h.bitmap[i] & ~m) == (b0[i] & ~m), "no other slot changes state"); if (m) { unsigned s = h.bitmap[i] >> (ch % 32 * 2) & 3; if (o == 3) cx_assert(s == DE, "an erased slot is deleted"); else cx_assert(s & OC, "the entry's slot is occupied"); } }
    for (unsigned i = 0; i < L; i++) if (i != ch) cx_assert(h.data[i].first == dk[i] && h.data[i].second == dv[i], "no other entry changes"); else if (o != 3) cx_assert(h.data[i].first == k && h.data[i].second == v, "the entry holds key and value"); else cx_assert(h.data[i].second == 0, "a deleted slot is cleared for reuse");
    cx_assert(h.used == u + (o == 1 || o == 2 ? !match : 0) - (o == 3 && match), "the size is the number of keys"); cx_assert(h.tombs == t + (o == 3 && match) - ((o == 1 || o == 2) && !match && tomb), "deleted slots are counted");
}
CX_DRIVER(H01, run, 4960) { runs(cell % 2 ? 32 : 64, POS[cell / 2 % 10], cell / 20); }
CX_DRIVER(H01, all_run, 18600) { static const unsigned CAP[3] = { 32, 64, 128 }; runs(CAP[cell % 3], POS[cell / 3 % 25], cell / 75); }
// growth across several capacities: n insertions with homes by pattern, with erasures in between
CX_DRIVER(H01, grow, 30) {
    unsigned pat = cell % 6, n = 4 + cell / 6 * 5; Map h(cell & 1 ? 16 : 2); Abs a; a.n = 0; unsigned er = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned home = pat == 0 ? i : pat == 1 ? 0 : pat == 2 ? 63 : pat == 3 ? i * 32 : pat == 4 ? 15 + 16 * (i & 1) : i * 21; uint64_t k = cx_sym("key", 56) << 8 | (home & 255), v = cx_u64("value"); for (unsigned j = 0; j < a.n; j++) cx_assume(a.e[j].k != k);
        if (i & 1) { auto it = h.insert(k, v); cx_assert(it->first == k && it->second == v, "insertion returns the entry"); } else h[k] = v; a.e[a.n].k = k; a.e[a.n].v = v; a.n++;
        if (pat != 5 && i % 5 == 3) { h.erase(a.e[er].k); del(a, er); er++; }
    }
    check(h, a); for (unsigned j = 0; j < a.n; j++) { auto it = h.find(a.e[j].k); cx_assert(it != h.end() && it->second == a.e[j].v, "a key that is present is found"); }
}
// whole-table operations and growth of larger tables, in six patterns of slots (homes equal to slots or one before)
static const unsigned CAPS[5] = { 16, 32, 64, 128, 256 };
static bool taken(unsigned pat, unsigned L, unsigned i, unsigned &st) {
    st = OC; switch (pat) { case 0: return i % 2 == 0; case 1: st = i % 3 ? OC : RE; return i >= L - L / 4 || i < L / 4; case 2: st = i % 2 ? OC : RE; return i % 32 >= 30 || i % 32 < 2; case 3: st = DE; return i % 2 == 1; case 4: return i == L - 1; default: st = i % 3 == 0 ? DE : i % 3 == 1 ? OC : RE; return i % 32 >= 16 ? i % 5 == 0 : i % 7 < 4; }
}
CX_DRIVER(H01, tables, 270) {
    unsigned L = CAPS[cell % 5], pat = cell / 5 % 6, o = cell / 30; cx_set("states", 1 << 24); { Map h(L); Abs a; a.n = 0; unsigned used = 0, tombs = 0; unsigned lg = 0; while ((1u << lg) < L) lg++; bool before = false;
    for (unsigned i = 0; i < L; i++) { unsigned s; if (!taken(pat, L, i, s)) { before = false; continue; } if (used + tombs == L / 2) break; if (s == DE) { tombs++; before = true; } else { used++; unsigned home = before && i % 4 == 1 ? i - 1 : i; before = true; uint64_t k = (cx_sym("key", 61 - lg) << 3 | i * 5 % 8) << lg | home; for (unsigned j = 0; j < a.n; j++) cx_assume(a.e[j].k != k); a.e[a.n].k = k; a.e[a.n].v = cx_u64("value"); h.data[i].first = k; h.data[i].second = a.e[a.n].v; a.n++; } h.bitmap[i / 32] |= (uint64_t)s << (i % 32 * 2); }
    h.used = used; h.tombs = tombs; cx_assert(h.capacity() == L && h.size() == a.n, "size and capacity are reported"); if (o < 6) whole(h, L, a, 4 + o);
    else { uint64_t v = cx_u64("new value"); for (unsigned i = 0; i < 3; i++) { uint64_t k = (cx_sym("new key", 61 - lg) << 3 | (o * 3 + i) % 8) << lg | (o == 6 ? L / 2 + 1 : o == 7 ? 0 : L - 1); for (unsigned j = 0; j < a.n; j++) cx_assume(a.e[j].k != k); if (i == 0) { auto it = h.insert(k, v); cx_assert(it->first == k && it->second == v, "insertion returns the entry"); } else if (i == 1) { auto it = h.insert(h.begin(), Map::value_type(k, v)); cx_assert(it->first == k && it->second == v, "insertion with a hint is insertion"); } else { uint64_t &r = h[k]; cx_assert(r == 0, "indexing yields zero for a new key"); r = v; } put(a, k, v, a.n); }
        check(h, a); auto i = h.begin(); if (a.n) { auto x = *i; auto j = i++; cx_assert(j->first == x.first && j->second == x.second && (i == h.end() || i->first != x.first), "stepping yields the entry stepped over"); } for (unsigned j = 0; j < a.n; j++) { auto it = h.find(a.e[j].k); cx_assert(it != h.end() && it->second == a.e[j].v, "a key that is present is found"); } } } cx_assert(cx_heap_live() == 0, "every table is freed exactly once");
}
