#include "dom.h"
Tables T;

u32 newSym(unsigned w, SymOp op, const std::string &name) {
    u32 id = T.syms.size();
    Sym s; s.w = w; s.op = op; s.name = name; s.atomBase = T.atoms.size();
    T.syms.push_back(s);
    for (unsigned i = 0; i < w; i++) T.atoms.push_back({id, i, ~0u});
    return id;
}
static u32 intern(const std::vector<u64>&k, std::function<u32()> mk) {
    auto it = T.symIdx.find(k); if (it != T.symIdx.end()) return it->second;
    u32 s = mk(); T.symIdx[k] = s; return s;
}
u32 boolSym(char op, Bit a, Bit b) {
    if (a > b) std::swap(a, b);
    return intern({1, (u64)op, a, b}, [&]{ u32 s = newSym(1, S_BOOL, op == '^' ? "xor" : "and");
        T.syms[s].code = op; T.syms[s].bits = {a, b}; return s; });
}
Bit bxor(Bit a, Bit b) {
    if (a == b) return B0;
    if (a == B0) return b; if (b == B0) return a;
    if (a > b) std::swap(a, b);
    u64 key = (u64)a << 32 | b;
    auto it = T.xorCache.find(key); if (it != T.xorCache.end()) return it->second;
    std::vector<u32> r;
    {
        const auto &x = T.anfs[a], &y = T.anfs[b];
        std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(r));
    }
    Bit res = r.size() > ANF_MAX ? symBit(boolSym('^', a, b), 0) : internAnf(r);
    T.xorCache[key] = res; return res;
}
Bit band(Bit a, Bit b) {
    if (a == b) return a;
    if (a == B0 || b == B0) return B0;
    if (a == B1) return b; if (b == B1) return a;
    if (a > b) std::swap(a, b);
    u64 key = (u64)a << 32 | b;
    auto it = T.andCache.find(key); if (it != T.andCache.end()) return it->second;
    Bit res;
    if (T.anfs[a].size() * T.anfs[b].size() > 4 * ANF_MAX) res = symBit(boolSym('&', a, b), 0);
    else {
        std::map<u32,int> acc; bool big = false;
        auto x = T.anfs[a], y = T.anfs[b];
        for (u32 m : x) for (u32 n : y) {
            std::vector<u32> u;
            const auto &p = T.monos[m], &q = T.monos[n];
            std::set_union(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(u));
            if (u.size() > DEG_MAX) big = true;
            if (!big) acc[internMono(u)] ^= 1;
        }
        std::vector<u32> r; for (auto &e : acc) if (e.second) r.push_back(e.first);
        if (big || r.size() > ANF_MAX) res = symBit(boolSym('&', a, b), 0); else res = internAnf(r);
    }
    T.andCache[key] = res; return res;
}
Val mkBits(std::vector<Bit> b) {
    bool allc = b.size() <= 128; u128 c = 0;
    if (allc) for (size_t i = 0; i < b.size(); i++) { if (b[i] > 1) { allc = false; break; } if (b[i]) c |= (u128)1 << i; }
    if (allc) return mkConst(b.size(), c);
    Val v; v.k = K_BITS; v.w = b.size(); sp<VN> n(new VN); n->bits = std::move(b); v.n = n; return v;
}
u32 sliceSym(u32 s, u32 lo, u32 len);
// overlapping slices of one symbol: one coefficient per bit range, adjacent ranges that continue each other merged
template <class R> static void mergeSlices(ModLin&l, R red) {
    auto parent = [](u32 s) { return T.syms[s].op == S_SLICE ? T.syms[s].a : s; };
    for (size_t i = 0; i + 1 < l.t.size(); i++) {
        u32 par = parent(l.t[i].first); std::vector<size_t> g; bool whole = false, overlap = false;
        for (size_t j = 0; j < l.t.size(); j++) if (parent(l.t[j].first) == par) { g.push_back(j); if (l.t[j].first == par) whole = true; }
        if (g.size() < 2 || g[0] != i) continue;
        auto lo_ = [&](size_t j) { const Sym &S = T.syms[l.t[j].first]; return S.op == S_SLICE ? S.lo : 0u; };
        std::set<u32> cut; for (size_t j : g) { cut.insert(lo_(j)); cut.insert(lo_(j) + T.syms[l.t[j].first].w); }
        for (size_t j : g) for (size_t k : g) if (j < k) { u32 a = lo_(j), b = lo_(k); if (a < b + T.syms[l.t[k].first].w && b < a + T.syms[l.t[j].first].w) overlap = true; }
        if (!overlap) continue;
        struct Seg { u32 lo, hi; i128 k; }; std::vector<Seg> seg;
        for (auto it = cut.begin(); std::next(it) != cut.end(); ++it) {
            u32 lo = *it, hi = *std::next(it); i128 k = 0;
            for (size_t j : g) { u32 a = lo_(j); if (a <= lo && hi <= a + T.syms[l.t[j].first].w && lo - a < 120) k += l.t[j].second << (lo - a); }
            k = red(k); if (!k) continue;
            if (!seg.empty() && seg.back().hi == lo && lo - seg.back().lo < 120 && red(seg.back().k << (lo - seg.back().lo)) == k) seg.back().hi = hi; else seg.push_back({lo, hi, k});
        }
        if (whole && seg.size() >= g.size()) continue;
        std::map<u32, i128> m; for (size_t j = 0; j < l.t.size(); j++) if (parent(l.t[j].first) != par) m[l.t[j].first] = l.t[j].second;
        for (auto &s : seg) { u32 x = sliceSym(par, s.lo, s.hi - s.lo); m[x] = red(m[x] + s.k); }
        l.t.clear(); for (auto &e : m) if (e.second) l.t.push_back({e.first, e.second});
        i = (size_t)-1; // the terms changed: start again (no overlap is left in this group)
        if (l.t.size() < 2) return;
    }
}
void canonMod(ModLin&l, unsigned w) {
    if (w > 100) return;
    i128 m = (i128)1 << w, h = (i128)1 << (w - 1);
    auto red = [&](i128 x) { x %= m; if (x < 0) x += m; if (x >= h) x -= m; return x; };
    size_t j = 0;
    for (size_t i = 0; i < l.t.size(); i++) { i128 x = red(l.t[i].second); if (x) { l.t[j] = l.t[i]; l.t[j].second = x; j++; } }
    l.t.resize(j); l.c = red(l.c);
    if (l.t.size() > 1) mergeSlices(l, red);
}
ModLin linAdd(const ModLin&a, const ModLin&b, i128 kb) {
    ModLin r; r.c = a.c + kb * b.c; size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, kb * b.t[j].second}); j++; }
        else { i128 c = a.t[i].second + kb * b.t[j].second; if (c) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    return r;
}
ModLin linConst(i128 c) { ModLin l; l.c = c; return l; }
ModLin linSym(u32 s) { ModLin l; l.t.push_back({s, 1}); return l; }

u32 linSymOf(const ModLin&l, unsigned w) {
    std::vector<u64> k = {2, w};
    for (auto &t : l.t) { k.push_back(t.first); k.push_back((u64)t.second); k.push_back((u64)(t.second >> 64)); }
    k.push_back((u64)l.c);
    return intern(k, [&]{ u32 s = newSym(w, S_LIN, "lin"); T.syms[s].lin = l; return s; });
}
u32 packSym(const std::vector<Bit>&b) {
    std::vector<u64> k = {3}; for (Bit x : b) k.push_back(x);
    return intern(k, [&]{ u32 s = newSym(b.size(), S_PACK, "pack"); T.syms[s].bits = b; return s; });
}
u32 sliceSym(u32 s, u32 lo, u32 len) {
    if (lo == 0 && len == T.syms[s].w) return s;
    return intern({4, s, lo, len}, [&]{ u32 r = newSym(len, S_SLICE, "slice"); T.syms[r].a = s; T.syms[r].lo = lo; return r; });
}
void valKey(std::vector<u64>&k, const Val&v) {
    k.push_back((u64)v.k << 32 | v.w);
    switch (v.k) {
    case K_CONST: k.push_back((u64)v.c); k.push_back((u64)(v.c >> 64)); break;
    case K_BITS: for (Bit b : v.n->bits) k.push_back(b); break;
    case K_LIN: for (auto &t : v.n->lin.t) { k.push_back(t.first); k.push_back((u64)t.second); } k.push_back((u64)v.n->lin.c); break;
    case K_PTR: k.push_back(v.base); valKey(k, v.n->off); break;
    case K_AGG: for (auto &e : v.n->agg) valKey(k, e); break;
    default: break;
    }
}
u32 opSym(SymOp op, int code, unsigned w, const std::vector<Val>&args) {
    std::vector<u64> k = {5, op, (u64)(i64)code, w};
    for (auto &a : args) valKey(k, a);
    return intern(k, [&]{ u32 s = newSym(w, op, "op" + std::to_string(code)); T.syms[s].code = code; T.syms[s].args = args; return s; });
}
bool valEq(const Val&a, const Val&b) {
    if (a.k != b.k || a.w != b.w) return false;
    switch (a.k) {
    case K_CONST: return a.c == b.c;
    case K_BITS: return a.n == b.n || a.n->bits == b.n->bits;
    case K_LIN: return a.n == b.n || a.n->lin == b.n->lin;
    case K_PTR: return a.base == b.base && valEq(a.n->off, b.n->off);
    case K_AGG: if (a.n->agg.size() != b.n->agg.size()) return false;
        for (size_t i = 0; i < a.n->agg.size(); i++) if (!valEq(a.n->agg[i], b.n->agg[i])) return false; return true;
    default: return true;
    }
}
Val symVal(u32 s) {
    std::vector<Bit> b; for (u32 i = 0; i < T.syms[s].w; i++) b.push_back(symBit(s, i)); return mkBits(b);
}
// substitute a term k*sym (value of sym zero-extended) into l, expanding S_LIN definitions when exact mod 2^w
static void addTerm(ModLin&l, u32 s, i128 k, unsigned w, u32 lo, u32 len) {
    // term: k * slice(s, lo, len)
    if (lo == ALIGN_BITS && lo + len == 64 && T.syms[s].aligned && k == (i128)1 << ALIGN_BITS) { lo = 0; len = 64; k = 1; } // an aligned address
    const Sym &S = T.syms[s];
    if (lo == 0 && S.op == S_LIN) {
        // k * (def mod 2^len): exact mod 2^w if k is a multiple of 2^(w-len)
        unsigned need = len >= w ? 0 : w - len; // trailing zeros needed in k
        bool ok = need == 0;
        if (!ok && need < 120 && (k & (((i128)1 << need) - 1)) == 0) ok = true;
        if (ok) { ModLin d = S.lin; l = linAdd(l, d, k); return; }
    }
    l = linAdd(l, linSym(sliceSym(s, lo, len)), k);
}
ModLin toMod(const Val&v, unsigned w) {
    ModLin l;
    if (v.k == K_CONST) { l.c = (i128)(v.c & maskw(w)); canonMod(l, w); return l; }
    if (v.k == K_LIN) {
        if (v.w >= w) { l = v.n->lin; canonMod(l, w); return l; }
        // zero extension of a wrapped form: needs its own symbol
        u32 s = linSymOf(v.n->lin, v.w); l = linSym(s); return l;
    }
    if (v.k == K_BITS) {
        const auto &b = v.n->bits; size_t n = std::min<size_t>(b.size(), w);
        size_t i = 0;
        while (i < n) {
            if (b[i] == B0) { i++; continue; }
            if (b[i] == B1) { l.c += (i128)1 << i; i++; continue; }
            u32 at; bool neg;
            if (asAtom(b[i], at, neg)) {
                if (neg) { // 1 - atom
                    l.c += (i128)1 << i;
                    u32 s = T.atoms[at].sym; addTerm(l, s, -((i128)1 << i), w, T.atoms[at].idx, 1); i++; continue;
                }
                u32 s = T.atoms[at].sym, lo = T.atoms[at].idx; size_t j = i + 1; u32 len = 1;
                while (j < n) { u32 a2; bool n2; if (b[j] < 2 || !asAtom(b[j], a2, n2) || n2 || a2 != at + len || T.atoms[a2].sym != s) break; j++; len++; }
                addTerm(l, s, (i128)1 << i, w, lo, len); i = j; continue;
            }
            size_t j = i; std::vector<Bit> run;
            while (j < n) { u32 a2; bool n2; if (b[j] < 2 || asAtom(b[j], a2, n2)) break; run.push_back(b[j]); j++; }
            l = linAdd(l, linSym(packSym(run)), (i128)1 << i); i = j;
        }
        canonMod(l, w); return l;
    }
    return l;
}
Val mkLin(unsigned w, ModLin l) {
    canonMod(l, w);
    if (l.t.empty()) return mkConst(w, (u128)l.c);
    // present as bits when carry-free
    if (l.t.size() == 1 && l.c == 0 && l.t[0].second == 1) {
        const Sym &S = T.syms[l.t[0].first];
        if (S.op != S_LIN || S.w < w) {
            std::vector<Bit> b; u32 s = l.t[0].first;
            u32 par = s, lo = 0; if (S.op == S_SLICE) { par = S.a; lo = S.lo; }
            unsigned sw = S.w; SymOp op = S.op; std::vector<Bit> pb; if (op == S_PACK) pb = S.bits;
            for (unsigned i = 0; i < w; i++) b.push_back(i < sw ? (op == S_PACK ? pb[i] : symBit(par, lo + i)) : B0);
            return mkBits(b);
        }
    }
    Val v; v.k = K_LIN; v.w = w; sp<VN> n(new VN); n->lin = std::move(l); v.n = n; return v;
}
std::vector<Bit> bitsOf(const Val&v) {
    std::vector<Bit> b;
    if (v.k == K_CONST) { for (unsigned i = 0; i < v.w; i++) b.push_back(i < 128 && ((v.c >> i) & 1) ? B1 : B0); return b; }
    if (v.k == K_BITS) return v.n->bits;
    if (v.k == K_LIN) {
        const ModLin &l = v.n->lin; unsigned w = v.w;
        // carry-free sum of shifted symbols
        b.assign(w, B0); bool ok = true; u128 c = (u128)l.c & maskw(w);
        for (unsigned i = 0; i < w; i++) if ((c >> i) & 1) b[i] = B1;
        for (auto &t : l.t) {
            i128 k = t.second; if (k < 0) k += (i128)1 << w;
            if (k <= 0 || (k & (k - 1))) { ok = false; break; }
            unsigned sh = 0; while (!((k >> sh) & 1)) sh++;
            const Sym S = T.syms[t.first];
            u32 par = t.first, lo = 0; if (S.op == S_SLICE) { par = S.a; lo = S.lo; }
            for (unsigned i = 0; i < S.w && sh + i < w; i++) {
                if (b[sh + i] != B0) { ok = false; break; }
                b[sh + i] = S.op == S_PACK ? S.bits[i] : symBit(par, lo + i);
            }
            if (!ok) break;
        }
        if (ok) return b;
        if (l.t.size() == 1 && l.t[0].second == 1 && T.syms[l.t[0].first].op == S_ADDR && T.syms[l.t[0].first].aligned && w == 64) { // object address plus offset
            i128 low = l.c & 15; ModLin m = l; m.c -= low; u32 s = linSymOf(m, w); T.syms[s].aligned = true; b.clear(); for (unsigned i = 0; i < w; i++) b.push_back(i < ALIGN_BITS ? ((low >> i) & 1 ? B1 : B0) : symBit(s, i)); return b;
        }
        // low bits up to the first term: constant part
        // two's complement of a single bit: c0 - 2^k * bit patterns (sign masks)
        if (l.t.size() == 1) {
            const Sym S = T.syms[l.t[0].first];
            if (S.w == 1) {
                u128 v0 = (u128)l.c & maskw(w), v1 = (u128)(l.c + l.t[0].second) & maskw(w);
                Bit s = S.op == S_SLICE ? symBit(S.a, S.lo) : S.op == S_PACK ? S.bits[0] : symBit(l.t[0].first, 0);
                b.clear();
                for (unsigned i = 0; i < w; i++) { bool x = (v0 >> i) & 1, y = (v1 >> i) & 1;
                    b.push_back(x == y ? (x ? B1 : B0) : (y ? s : bnot(s))); }
                return b;
            }
        }
        // ~x == -1 - x
        if (l.c == -1 && l.t.size() >= 1) {
            ModLin m = linAdd(linConst(0), l, -1); m.c = 0; Val x = mkLin(w, m);
            if (x.k == K_BITS) { b.clear(); for (Bit q : x.n->bits) b.push_back(bnot(q)); return b; }
        }
        // all terms are multiples of 2^tz: the low bits are those of the constant
        unsigned tz = w; for (auto &x : l.t) { unsigned z = 0; i128 k = x.second; while (z < w && !((k >> z) & 1)) z++; tz = std::min(tz, z); }
        if (tz > 0 && tz < w) {
            ModLin m; m.c = l.c >> tz; for (auto &x : l.t) m.t.push_back({x.first, x.second >> tz}); std::vector<Bit> hi = bitsOf(mkLin(w - tz, m)); b.clear();
            for (unsigned i = 0; i < w; i++) b.push_back(i < tz ? ((l.c >> i) & 1 ? B1 : B0) : hi[i - tz]); return b;
        }
        // one term, the others multiples of 2^z: its low bits are not carried into
        unsigned odd = 0, at = 0, z = w; for (unsigned i = 0; i < l.t.size(); i++) if (l.t[i].second & 1) { odd++; at = i; }
        if (odd == 1 && l.t[at].second == 1) {
            auto low = [&](i128 k) { unsigned n = 0; while (n < z && !((k >> n) & 1)) n++; z = n; };
            low(l.c); for (unsigned i = 0; i < l.t.size(); i++) if (i != at) low(l.t[i].second);
            const Sym S = T.syms[l.t[at].first]; u32 par = l.t[at].first, lo = 0; if (S.op == S_SLICE) { par = S.a; lo = S.lo; }
            if (z > 0 && z < w && S.op != S_LIN && S.op != S_PACK && S.op != S_ADDR && S.w > z) {
                ModLin m; m.c = l.c >> z; for (unsigned i = 0; i < l.t.size(); i++) if (i != at) m.t.push_back({l.t[i].first, l.t[i].second >> z});
                m = linAdd(m, linSym(sliceSym(par, lo + z, S.w - z)), 1); std::vector<Bit> hi = bitsOf(mkLin(w - z, m)); b.clear();
                for (unsigned i = 0; i < w; i++) b.push_back(i < z ? symBit(par, lo + i) : hi[i - z]); return b;
            }
        }
        u32 s = linSymOf(l, w); b.clear(); for (unsigned i = 0; i < w; i++) b.push_back(symBit(s, i)); return b;
    }
    return b;
}
static std::string i128s(i128 x) { bool n = x < 0; u128 u = n ? -(u128)x : (u128)x; std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }
static std::string symStr(u32 s) {
    const Sym &S = T.syms[s];
    if (S.op == S_SLICE) return symStr(S.a) + "[" + std::to_string(S.lo + S.w - 1) + ":" + std::to_string(S.lo) + "]";
    return S.name + "#" + std::to_string(s);
}
std::string bitStr(Bit b) {
    if (b < 2) return b ? "1" : "0"; std::string r;
    for (u32 m : T.anfs[b]) { if (!r.empty()) r += "^"; if (T.monos[m].empty()) r += "1";
        for (size_t i = 0; i < T.monos[m].size(); i++) { u32 a = T.monos[m][i]; r += (i ? "&" : "") + symStr(T.atoms[a].sym) + "." + std::to_string(T.atoms[a].idx); } }
    return r;
}
std::string linStr(const Lin&l) {
    std::string r; for (auto &t : l.t) { if (!r.empty()) r += " + "; if (t.second != 1) r += i128s(t.second) + "*"; r += symStr(t.first); }
    if (l.c || r.empty()) { if (!r.empty()) r += " + "; r += i128s(l.c); } return r;
}
std::string valStr(const Val&v) {
    switch (v.k) {
    case K_CONST: return i128s((i128)v.c) + ":i" + std::to_string(v.w);
    case K_BITS: { ModLin l = toMod(v, std::min<unsigned>(v.w, 100)); return "{" + linStr(l) + "}:i" + std::to_string(v.w); }
    case K_LIN: return "(" + linStr(v.n->lin) + "):i" + std::to_string(v.w);
    case K_PTR: return "ptr(obj" + std::to_string(v.base) + " + " + valStr(v.n->off) + ")";
    case K_AGG: { std::string s = "<"; for (auto &e : v.n->agg) s += valStr(e) + ","; return s + ">"; }
    default: return "?";
    }
}

// ---- polyhedra: emptiness by Gauss + Fourier-Motzkin ----
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static bool comb(const Lin&a, i128 ka, const Lin&b, i128 kb, Lin&r) { // r = ka*a + kb*b, false on overflow
    r.t.clear(); size_t i = 0, j = 0; i128 x, y;
    auto mul = [](i128 p, i128 q, i128&o) { return !__builtin_mul_overflow(p, q, &o); };
    if (!mul(a.c, ka, x) || !mul(b.c, kb, y) || __builtin_add_overflow(x, y, &r.c)) return false;
    while (i < a.t.size() || j < b.t.size()) {
        u32 s; i128 c;
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { s = a.t[i].first; if (!mul(a.t[i].second, ka, c)) return false; i++; }
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { s = b.t[j].first; if (!mul(b.t[j].second, kb, c)) return false; j++; }
        else { s = a.t[i].first; if (!mul(a.t[i].second, ka, x) || !mul(b.t[j].second, kb, y) || __builtin_add_overflow(x, y, &c)) return false; i++; j++; }
        if (c) r.t.push_back({s, c});
    }
    return true;
}
static i128 coefOf(const Lin&l, u32 s) { for (auto &t : l.t) if (t.first == s) return t.second; return 0; }
// returns 0 redundant/true, 1 keep, 2 contradiction
static int normIneq(Lin&l) {
    if (l.t.empty()) return l.c >= 0 ? 0 : 2;
    i128 g = 0; for (auto &t : l.t) g = gcd128(g, t.second);
    if (g > 1) { for (auto &t : l.t) t.second /= g; l.c = floordiv(l.c, g); }
    return 1;
}
bool feasible(std::vector<Lin> eqs, std::vector<Lin> in) {
    // equalities
    while (!eqs.empty()) {
        Lin e = eqs.back(); eqs.pop_back();
        if (e.t.empty()) { if (e.c != 0) return false; continue; }
        i128 g = 0; for (auto &t : e.t) g = gcd128(g, t.second);
        if (g > 1) { if (e.c % g) return false; for (auto &t : e.t) t.second /= g; e.c /= g; }
        // pick the variable with smallest |coef|
        size_t best = 0; for (size_t i = 1; i < e.t.size(); i++) { i128 x = e.t[i].second, y = e.t[best].second; if (x < 0) x = -x; if (y < 0) y = -y; if (x < y) best = i; }
        u32 s = e.t[best].first; i128 k = e.t[best].second;
        auto subst = [&](Lin&l, bool isEq) -> bool {
            i128 c = coefOf(l, s); if (!c) return true;
            // l*|k| - e*c*sgn(k)
            Lin r; i128 ak = k < 0 ? -k : k; i128 gg = gcd128(ak, c); i128 ka = ak / gg, kb = -(c / gg) * (k < 0 ? -1 : 1);
            if (!comb(l, ka, e, kb, r)) return false;
            l = r; return true;
        };
        std::vector<Lin> ne; for (auto &l : eqs) if (subst(l, true)) ne.push_back(l); eqs.swap(ne);
        std::vector<Lin> ni; for (auto &l : in) if (subst(l, false)) { int z = normIneq(l); if (z == 2) return false; if (z == 1) ni.push_back(l); } in.swap(ni);
    }
    { std::vector<Lin> ni; for (auto &l : in) { int z = normIneq(l); if (z == 2) return false; if (z == 1) ni.push_back(l); } in.swap(ni); }
    for (int round = 0; round < 60; round++) {
        // dedupe by direction, keep the strongest
        std::map<std::vector<std::pair<u32,i128>>, i128> m;
        for (auto &l : in) { auto it = m.find(l.t); if (it == m.end()) m[l.t] = l.c; else if (l.c < it->second) it->second = l.c; }
        in.clear(); for (auto &e : m) { Lin l; l.t = e.first; l.c = e.second;
            // opposite direction contradiction
            std::vector<std::pair<u32,i128>> o = l.t; for (auto &x : o) x.second = -x.second; auto it = m.find(o);
            if (it != m.end() && it->second + l.c < 0) return false;
            in.push_back(l); }
        if (in.empty()) return true;
        std::map<u32,std::pair<int,int>> cnt;
        for (auto &l : in) for (auto &t : l.t) (t.second > 0 ? cnt[t.first].first : cnt[t.first].second)++;
        u32 s = 0; long bestc = 0; bool first = true;
        for (auto &e : cnt) {
            long c = (long)e.second.first * e.second.second - e.second.first - e.second.second;
            if (first || c < bestc) { bestc = c; s = e.first; first = false; }
        }
        std::vector<Lin> P, N, R;
        for (auto &l : in) { i128 c = coefOf(l, s); (c > 0 ? P : c < 0 ? N : R).push_back(l); }
        if (P.size() * N.size() + R.size() > 3000) return true;
        for (auto &p : P) for (auto &n : N) {
            i128 cp = coefOf(p, s), cn = -coefOf(n, s); i128 g = gcd128(cp, cn); Lin r;
            if (!comb(p, cn / g, n, cp / g, r)) continue;
            int z = normIneq(r); if (z == 2) return false; if (z == 1) R.push_back(r);
        }
        in.swap(R);
    }
    return true;
}
