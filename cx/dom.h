// Abstract domains of the cx analyser.
//
//  * Bit      - one bit of a machine word, in algebraic normal form (XOR of AND
//               monomials) over atoms; an atom is one bit of a symbol.
//  * ModLin   - a machine word as a linear form over symbols modulo 2^w.
//  * Lin      - a linear form over symbols in the integers; conjunctions of
//               Lin >= 0 / Lin == 0 form the convex (polyhedral) component.
//  * Val      - constant | bit vector | ModLin | pointer | aggregate.
//
// Symbols are hash-consed on their defining operation, so equal computations
// have equal representations (value numbering).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef __int128 i128; typedef unsigned __int128 u128;

// intrusive, non-atomic shared pointer (the analyser is single threaded per process)
struct RefBase { mutable u32 rc = 0; RefBase() {} RefBase(const RefBase&) : rc(0) {} RefBase& operator=(const RefBase&) { return *this; } };
template <class X> struct sp {
    X *p = nullptr;
    sp() {} sp(X *q) : p(q) { if (p) p->rc++; }
    sp(const sp&o) : p(o.p) { if (p) p->rc++; }
    sp(sp&&o) noexcept : p(o.p) { o.p = nullptr; }
    ~sp() { if (p && --p->rc == 0) delete p; }
    sp& operator=(const sp&o) { if (o.p) o.p->rc++; X *q = p; p = o.p; if (q && --q->rc == 0) delete q; return *this; }
    sp& operator=(sp&&o) noexcept { std::swap(p, o.p); return *this; }
    X* operator->() const { return p; } X& operator*() const { return *p; }
    explicit operator bool() const { return p; }
    bool operator==(const sp&o) const { return p == o.p; }
};

typedef u32 Bit;
static const Bit B0 = 0, B1 = 1;

struct VecHash { size_t operator()(const std::vector<u32>&v) const {
    size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
struct Vec64Hash { size_t operator()(const std::vector<u64>&v) const {
    size_t h = v.size(); for (u64 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };

struct ModLin { std::vector<std::pair<u32,i128>> t; i128 c = 0;
    bool operator==(const ModLin&o) const { return c == o.c && t == o.t; } };
typedef ModLin Lin;

enum Kind : u8 { K_NONE, K_CONST, K_BITS, K_LIN, K_PTR, K_AGG };

struct VN;
struct Val {
    Kind k = K_NONE; u16 w = 0; u32 base = 0; u128 c = 0;
    sp<VN> n;
    bool isConst() const { return k == K_CONST; }
    bool isPtr() const { return k == K_PTR; }
    bool none() const { return k == K_NONE; }
};
struct VN : RefBase { std::vector<Bit> bits; ModLin lin; Val off; std::vector<Val> agg; };

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline Val mkConst(unsigned w, u128 c) { Val v; v.k = K_CONST; v.w = w; v.c = c & maskw(w); return v; }

enum SymOp : u8 { S_INPUT, S_UNDEF, S_LIN, S_PACK, S_SLICE, S_ICMP, S_UDIV, S_OP, S_ADDR, S_MEM, S_HAVOC, S_BOOL };

struct Sym {
    u16 w; SymOp op; u32 atomBase; std::string name;
    ModLin lin;                 // S_LIN
    std::vector<Bit> bits;      // S_PACK, S_BOOL
    u32 a = 0, lo = 0;          // S_SLICE: parent, low bit
    int code = 0;               // S_ICMP: predicate, S_OP: opcode
    std::vector<Val> args;
    bool aligned = false; bool hasHi = false; u128 hiBound = 0; // optional upper bound
};

struct Tables {
    std::vector<std::vector<u32>> monos; std::unordered_map<std::vector<u32>,u32,VecHash> monoIdx;
    std::vector<std::vector<u32>> anfs;  std::unordered_map<std::vector<u32>,u32,VecHash> anfIdx;
    struct Atom { u32 sym; u32 idx; Bit bit; };
    std::vector<Atom> atoms;
    std::vector<Sym> syms;
    std::unordered_map<std::vector<u64>,u32,Vec64Hash> symIdx;
    std::unordered_map<u64,Bit> xorCache, andCache;
    void reset() {
        monos.clear(); monoIdx.clear(); anfs.clear(); anfIdx.clear(); atoms.clear(); syms.clear();
        symIdx.clear(); xorCache.clear(); andCache.clear();
        monos.push_back({}); monoIdx[{}] = 0;
        anfs.push_back({}); anfIdx[{}] = 0;
        anfs.push_back({0}); anfIdx[{0}] = 1;
    }
    Tables() { reset(); }
};
extern Tables T;

static inline u32 internMono(const std::vector<u32>&m) {
    auto it = T.monoIdx.find(m); if (it != T.monoIdx.end()) return it->second;
    u32 id = T.monos.size(); T.monos.push_back(m); T.monoIdx[m] = id; return id;
}
static inline Bit internAnf(const std::vector<u32>&a) {
    auto it = T.anfIdx.find(a); if (it != T.anfIdx.end()) return it->second;
    u32 id = T.anfs.size(); T.anfs.push_back(a); T.anfIdx[a] = id; return id;
}
static inline Bit atomBit(u32 atom) {
    auto &A = T.atoms[atom];
    if (A.bit == ~0u) { Bit b = internAnf({ internMono({atom}) }); T.atoms[atom].bit = b; return b; }
    return A.bit;
}
static const unsigned ALIGN_BITS = 4; // addresses of aligned objects (Sym::aligned) are multiples of 16
static inline Bit symBit(u32 sym, u32 i) { const Sym &S = T.syms[sym]; return S.aligned && i < ALIGN_BITS ? B0 : atomBit(S.atomBase + i); }

u32 newSym(unsigned w, SymOp op, const std::string &name);
u32 boolSym(char op, Bit a, Bit b);

static const size_t ANF_MAX = 40, DEG_MAX = 7;

Bit bxor(Bit a, Bit b);
Bit band(Bit a, Bit b);
static inline Bit bnot(Bit a) { return bxor(a, B1); }
static inline Bit bor(Bit a, Bit b) { return bxor(bxor(a, b), band(a, b)); }
// single atom test: returns true when the bit is atom or negated atom
static inline bool asAtom(Bit b, u32 &atom, bool &neg) {
    if (b < 2) return false;
    const auto &p = T.anfs[b];
    if (p.size() == 1 && T.monos[p[0]].size() == 1) { atom = T.monos[p[0]][0]; neg = false; return true; }
    if (p.size() == 2 && p[0] == 0 && T.monos[p[1]].size() == 1) { atom = T.monos[p[1]][0]; neg = true; return true; }
    return false;
}

Val mkBits(std::vector<Bit> b);
Val mkLin(unsigned w, ModLin l);
static inline Val mkPtr(u32 base, Val off) { Val v; v.k = K_PTR; v.w = 64; v.base = base; sp<VN> n(new VN); n->off = off; v.n = n; return v; }
static inline Val mkNull() { return mkPtr(0, mkConst(64, 0)); }
static inline Val mkAgg(std::vector<Val> a) { Val v; v.k = K_AGG; sp<VN> n(new VN); n->agg = std::move(a); v.n = n; return v; }
bool valEq(const Val&a, const Val&b);
void valKey(std::vector<u64>&k, const Val&v);

ModLin linAdd(const ModLin&a, const ModLin&b, i128 kb);
ModLin linConst(i128 c);
ModLin linSym(u32 s);
void canonMod(ModLin&l, unsigned w);

ModLin toMod(const Val&v, unsigned w);     // linear form mod 2^w, v.w <= w is zero extended
std::vector<Bit> bitsOf(const Val&v);
Val symVal(u32 s);
u32 linSymOf(const ModLin&l, unsigned w);
u32 packSym(const std::vector<Bit>&b);
u32 sliceSym(u32 s, u32 lo, u32 len);
u32 opSym(SymOp op, int code, unsigned w, const std::vector<Val>&args);
std::string linStr(const Lin&l);
std::string valStr(const Val&v);
std::string bitStr(Bit b);

// ---- polyhedra ----
bool feasible(std::vector<Lin> eqs, std::vector<Lin> ineqs); // false only if proved empty
