#include "facts.h"
ValTable VT;

V intern(const Val&v) {
    if (v.k == K_NONE) return 0;
    if (v.k == K_CONST && v.w <= 64) {
        u64 key = (u64)v.c * 67 + v.w; // fast path, verified below
        auto it = VT.cidx.find(key);
        if (it != VT.cidx.end()) { const Val&x = VT.v[it->second]; if (x.c == v.c && x.w == v.w) return it->second; }
        else { std::vector<u64> k; valKey(k, v); auto i2 = VT.idx.find(k); u32 id;
            if (i2 != VT.idx.end()) id = i2->second; else { id = VT.v.size(); VT.v.push_back(v); VT.idx[k] = id; }
            VT.cidx[key] = id; return id; }
    }
    std::vector<u64> k; valKey(k, v);
    auto it = VT.idx.find(k); if (it != VT.idx.end()) return it->second;
    u32 id = VT.v.size(); VT.v.push_back(v); VT.idx[k] = id; return id;
}
Val toIntVal(const Val&v) {
    if (v.k != K_PTR) return v;
    if (v.base == 0) return v.n->off;
    return arith(Facts(), '+', symVal(addrSym(v.base)), v.n->off);
}
Val toPtrVal(const Val&v) {
    if (v.k == K_PTR) return v;
    if (v.k == K_LIN || v.k == K_BITS) {
        ModLin l = toMod(v, 64);
        for (size_t i = 0; i < l.t.size(); i++) if (T.syms[l.t[i].first].op == S_ADDR && l.t[i].second == 1) {
            u32 b = T.syms[l.t[i].first].a; l.t.erase(l.t.begin() + i);
            return mkPtr(b, mkLin(64, l));
        }
    }
    return mkPtr(0, v);
}
u32 addrSyms; bool (*baseAligned)(u32 base);
u32 addrSym(u32 base) {
    u32 before = T.syms.size(), s = opSym(S_ADDR, (int)base, 64, {}); T.syms[s].a = base; T.syms[s].name = "addr"; if (T.syms.size() > before) { addrSyms++; T.syms[s].aligned = baseAligned && baseAligned(base); } return s;
}

// ------------------------------------------------------------ simplification
static const Val& symSimp(const Facts&f, u32 s);
static int symDepth = 0;
static Bit atomSimp(const Facts&f, u32 atom) {
    auto it = f.sub.find(atom);
    if (it != f.sub.end()) return simpBit(f, it->second);
    u32 s = T.atoms[atom].sym;
    switch (T.syms[s].op) {
    case S_BOOL: case S_ICMP: case S_LIN: case S_UDIV: case S_OP: {
        const Val &v = symSimp(f, s);
        u32 i = T.atoms[atom].idx;
        if (v.k == K_CONST) return (v.c >> i) & 1;
        Bit b = v.n->bits[i]; return b;
    }
    default: return atomBit(atom);
    }
}
Bit simpBit(const Facts&f, Bit b) {
    if (b < 2) return b;
    auto it = f.bc.find(b); if (it != f.bc.end()) return it->second;
    u32 at; bool neg; Bit r;
    if (asAtom(b, at, neg)) { r = atomSimp(f, at); if (neg) r = bnot(r); }
    else {
        bool ch = false;
        std::vector<u32> p = T.anfs[b];
        std::map<u32,Bit> av;
        for (u32 m : p) for (u32 a : T.monos[m]) if (!av.count(a)) { Bit x = atomSimp(f, a); av[a] = x; if (x != atomBit(a)) ch = true; }
        if (!ch) r = b;
        else {
            r = B0;
            for (u32 m : p) { Bit t = B1; std::vector<u32> mm = T.monos[m]; for (u32 a : mm) { t = band(t, av[a]); if (t == B0) break; } r = bxor(r, t); }
        }
    }
    f.bc[b] = r; return r;
}
static ModLin simpMod(const Facts&f, const ModLin&l, unsigned w, bool&ch) {
    ModLin r = linConst(l.c); ch = false;
    for (auto &t : l.t) {
        Sym &S = T.syms[t.first]; u32 par = t.first, lo = 0; unsigned sw = S.w; SymOp op = S.op;
        if (op == S_SLICE) { par = S.a; lo = S.lo; }
        std::vector<Bit> nb(sw); bool c2 = false;
        if (op == S_PACK) { std::vector<Bit> ob = S.bits; for (unsigned i = 0; i < sw; i++) { nb[i] = simpBit(f, ob[i]); if (nb[i] != ob[i]) c2 = true; } }
        else for (unsigned i = 0; i < sw; i++) { Bit o = symBit(par, lo + i); nb[i] = simpBit(f, o); if (nb[i] != o) c2 = true; }
        if (!c2) { r = linAdd(r, linSym(t.first), t.second); continue; }
        ch = true;
        // integer value of the simplified bits, scaled
        Val nv = mkBits(nb);
        unsigned tz = 0; i128 k = t.second; while (tz < 120 && !((k >> tz) & 1)) tz++;
        unsigned need = w > tz ? w - tz : 1; // only value mod 2^(w-tz) matters
        ModLin m = toMod(nv, std::max<unsigned>(std::min<unsigned>(need, 100), 1));
        // toMod of a zero-extended value: valid modulo 2^need
        r = linAdd(r, m, k);
    }
    canonMod(r, w); return r;
}
static const Val& symSimp(const Facts&f, u32 s) {
    auto it = f.sc.find(s); if (it != f.sc.end()) return it->second;
    if (symDepth > 200) { static Val tmp; tmp = symVal(s); return tmp; }
    symDepth++;
    Val nv = symVal(s);
    SymOp op = T.syms[s].op; unsigned w = T.syms[s].w;
    std::vector<Bit> nb(w);
    Val alt; bool have = false;
    if (op == S_BOOL) {
        Bit a = T.syms[s].bits[0], b = T.syms[s].bits[1]; int code = T.syms[s].code;
        Bit x = simpBit(f, a), y = simpBit(f, b);
        if (x != a || y != b) { Bit r = code == '^' ? bxor(x, y) : band(x, y); if (r != symBit(s, 0)) r = simpBit(f, r); alt = mkBits({r}); have = true; }
    } else if (op == S_ICMP) {
        std::vector<Val> args = T.syms[s].args; int code = T.syms[s].code;
        Val x = simpVal(f, args[0]), y = simpVal(f, args[1]);
        if (!valEq(x, args[0]) || !valEq(y, args[1])) {
            Bit r = code == 'e' ? eqBit(f, x, y) : ultBit(f, x, y);
            u32 a2; bool n2;
            if (asAtom(r, a2, n2)) { auto i2 = f.sub.find(a2); if (i2 != f.sub.end()) { Bit q = simpBit(f, i2->second); r = n2 ? bnot(q) : q; } }
            else r = simpBit(f, r);
            alt = mkBits({r}); have = true;
        }
    } else if (op == S_LIN) {
        bool ch; ModLin l = T.syms[s].lin; ModLin m = simpMod(f, l, w, ch);
        if (ch) { alt = mkLin(w, m); if (alt.k == K_LIN) alt = mkBits(bitsOf(alt)); have = true; }
    } else if (op == S_UDIV || op == S_OP) {
        std::vector<Val> args = T.syms[s].args; int code = T.syms[s].code; bool ch = false;
        for (auto &a : args) { Val n = simpVal(f, a); if (!valEq(n, a)) { ch = true; a = n; } }
        if (ch && code) { alt = arith(f, code, args[0], args[1]); if (alt.k == K_LIN) alt = mkBits(bitsOf(alt)); have = true; }
    }
    for (unsigned i = 0; i < w; i++) {
        auto i2 = f.sub.find(T.syms[s].atomBase + i);
        if (i2 != f.sub.end()) nb[i] = simpBit(f, i2->second);
        else if (have) nb[i] = alt.k == K_CONST ? ((alt.c >> i) & 1) : alt.n->bits[i];
        else nb[i] = symBit(s, i);
    }
    symDepth--;
    Val r; std::vector<Bit> nbc = nb;
    bool allc = true; for (Bit b : nb) if (b > 1) allc = false;
    if (allc && w <= 128) r = mkBits(nb);
    else { r.k = K_BITS; r.w = w; r.n = sp<VN>(new VN); r.n->bits = nb; }
    return f.sc[s] = r;
}
Val simpVal(const Facts&f, const Val&v) {
    switch (v.k) {
    case K_BITS: {
        bool ch = false; std::vector<Bit> nb(v.n->bits.size());
        for (size_t i = 0; i < nb.size(); i++) { nb[i] = simpBit(f, v.n->bits[i]); if (nb[i] != v.n->bits[i]) ch = true; }
        return ch ? mkBits(nb) : v;
    }
    case K_LIN: { bool ch; ModLin l = simpMod(f, v.n->lin, v.w, ch); return ch ? mkLin(v.w, l) : v; }
    case K_PTR: { Val o = simpVal(f, v.n->off); return valEq(o, v.n->off) ? v : mkPtr(v.base, o); }
    case K_AGG: { std::vector<Val> a; for (auto &e : v.n->agg) a.push_back(simpVal(f, e)); return mkAgg(a); }
    default: return v;
    }
}

// ------------------------------------------------------------ ranges, linear forms
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static void linRange(const Facts&f, const Lin&l, i128&lo, i128&hi) {
    lo = hi = l.c;
    for (auto &t : l.t) { i128 a, b; symRange(f, t.first, a, b); if (t.second > 0) { lo += t.second * a; hi += t.second * b; } else { lo += t.second * b; hi += t.second * a; } }
}
void symRange(const Facts&f, u32 s, i128&lo, i128&hi) {
    unsigned w = T.syms[s].w; SymOp op = T.syms[s].op;
    lo = 0; hi = 0;
    for (unsigned i = 0; i < w; i++) {
        Bit b;
        if (op == S_PACK) b = T.syms[s].bits[i];
        else if (op == S_SLICE) b = symBit(T.syms[s].a, T.syms[s].lo + i);
        else b = symBit(s, i);
        b = simpBit(f, b);
        if (b == B1) { lo |= (i128)1 << i; hi |= (i128)1 << i; } else if (b != B0) hi |= (i128)1 << i;
    }
    auto it = f.rg.find(s); if (it != f.rg.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
    if (T.syms[s].hasHi) hi = std::min(hi, (i128)T.syms[s].hiBound);
    static int depth = 0;
    if (depth < 6 && lo != hi) {
        depth++;
        if (op == S_LIN) {
            i128 a, b; linRange(f, T.syms[s].lin, a, b); i128 m = (i128)1 << w;
            i128 k = fdiv(a, m);
            if (w < 100 && k == fdiv(b, m)) { lo = std::max(lo, a - k * m); hi = std::min(hi, b - k * m); }
        } else if (op == S_UDIV && T.syms[s].args.size() == 2 && T.syms[s].args[1].isConst()) {
            i128 a, b; range(f, T.syms[s].args[0], a, b); i128 c = (i128)T.syms[s].args[1].c;
            if (c > 0) { lo = std::max(lo, a / c); hi = std::min(hi, b / c); }
        }
        depth--;
    }
}
void range(const Facts&f, const Val&v, i128&lo, i128&hi) {
    if (v.k == K_CONST) { lo = hi = (i128)v.c; return; }
    unsigned w = std::min<unsigned>(v.w, 120);
    if (v.k == K_BITS) {
        lo = hi = 0;
        for (unsigned i = 0; i < w; i++) { Bit b = simpBit(f, v.n->bits[i]); if (b == B1) { lo |= (i128)1 << i; hi |= (i128)1 << i; } else if (b != B0) hi |= (i128)1 << i; }
        ModLin l = toMod(v, std::min<unsigned>(w, 100));
        if (l.t.size() == 1 && l.t[0].second == 1 && l.c == 0 && T.syms[l.t[0].first].op != S_LIN) { i128 a, b; symRange(f, l.t[0].first, a, b); lo = std::max(lo, a); hi = std::min(hi, b); }
        return;
    }
    if (v.k == K_LIN) {
        i128 a, b; linRange(f, v.n->lin, a, b); i128 m = (i128)1 << w; i128 k = fdiv(a, m);
        if (k == fdiv(b, m)) { lo = a - k * m; hi = b - k * m; return; }
        u32 s = linSymOf(v.n->lin, v.w); auto it = f.wrap.find(s);
        if (it != f.wrap.end()) { lo = std::max<i128>(0, a + it->second * m); hi = std::min<i128>(m - 1, b + it->second * m); return; }
        lo = 0; hi = m - 1; return;
    }
    lo = 0; hi = maskw(w);
}
static bool wrapOf(const Facts&f, u32 s, i128&k) {
    auto it = f.wrap.find(s); if (it != f.wrap.end()) { k = it->second; return true; }
    unsigned w = T.syms[s].w; if (w >= 100) return false;
    i128 a, b, m = (i128)1 << w; linRange(f, T.syms[s].lin, a, b);
    i128 q = fdiv(a, m); if (q == fdiv(b, m)) { k = -q; return true; }
    return false;
}
// linear form of an S_LIN definition with resolved wrap
static int resolveWrap(const Facts&f, const ModLin&form, unsigned w, u32 s, Lin&out, std::vector<Alt>*alts) {
    i128 m = (i128)1 << w, k;
    if (wrapOf(f, s, k)) { out = form; out.c += k * m; return 1; }
    i128 a, b; linRange(f, form, a, b);
    i128 k0 = -fdiv(b, m), k1 = -fdiv(a, m);
    if (k1 - k0 + 1 > 4) return 0;
    std::vector<i128> ok;
    for (i128 q = k0; q <= k1; q++) {
        Lin l = form; l.c += q * m; Lin u = linAdd(linConst(m - 1), l, -1);
        if (possible(f, {}, {l, u})) ok.push_back(q);
    }
    if (ok.empty()) throw Infeasible();
    if (ok.size() == 1) { f.wrap[s] = ok[0]; out = form; out.c += ok[0] * m; return 1; }
    if (alts) for (i128 q : ok) { ModLin fm = form; alts->push_back({[=](Facts&g) {
            Lin l = fm; l.c += q * m; Lin u = linAdd(linConst(m - 1), l, -1);
            g.wrap[s] = q; return addIn(g, l) && addIn(g, u); }}); }
    return 2;
}
static int linOf(const Facts&f, const Val&v0, Lin&out, std::vector<Alt>*alts) {
    Val v = simpVal(f, v0);
    if (v.k == K_PTR) v = toIntVal(v);
    if (v.k == K_CONST) { out = linConst((i128)v.c); return 1; }
    if (v.k == K_LIN) {
        u32 s = linSymOf(v.n->lin, v.w);
        int r = v.w < 100 ? resolveWrap(f, v.n->lin, v.w, s, out, alts) : 0;
        if (r == 0) { out = linSym(s); return 1; }
        return r;
    }
    if (v.k != K_BITS) throw Inconclusive{"linear form of a non-integer value"};
    const auto &b = v.n->bits; size_t n = b.size(); Lin l; size_t i = 0;
    while (i < n) {
        if (b[i] == B0) { i++; continue; }
        if (b[i] == B1) { l.c += (i128)1 << i; i++; continue; }
        u32 at; bool neg;
        if (asAtom(b[i], at, neg)) {
            u32 s = T.atoms[at].sym, lo = T.atoms[at].idx;
            if (neg) { l.c += (i128)1 << i; l = linAdd(l, linSym(sliceSym(s, lo, 1)), -((i128)1 << i)); i++; continue; }
            size_t j = i + 1; u32 len = 1;
            while (j < n) { u32 a2; bool n2; if (b[j] < 2 || !asAtom(b[j], a2, n2) || n2 || a2 != at + len || T.atoms[a2].sym != s) break; j++; len++; }
            if (lo == 0 && len == T.syms[s].w && T.syms[s].op == S_LIN) {
                Lin d; ModLin fm = T.syms[s].lin; int r = len < 100 ? resolveWrap(f, fm, len, s, d, alts) : 0;
                if (r == 2) return 2;
                if (r == 1) l = linAdd(l, d, (i128)1 << i); else l = linAdd(l, linSym(s), (i128)1 << i);
            } else l = linAdd(l, linSym(sliceSym(s, lo, len)), (i128)1 << i);
            i = j; continue;
        }
        size_t j = i; std::vector<Bit> run;
        while (j < n) { u32 a2; bool n2; if (b[j] < 2 || asAtom(b[j], a2, n2)) break; run.push_back(b[j]); j++; }
        l = linAdd(l, linSym(packSym(run)), (i128)1 << i); i = j;
    }
    out = l; return 1;
}
Lin toLin(const Facts&f, const Val&v) {
    Lin l; std::vector<Alt> alts;
    if (linOf(f, v, l, &alts) == 2) throw NeedFork{alts};
    return l;
}
bool tryLin(const Facts&f, const Val&v, Lin&out) { return linOf(f, v, out, nullptr) == 1; }

// ------------------------------------------------------------ polyhedral queries
bool possible(const Facts&f, const std::vector<Lin>&qe, const std::vector<Lin>&qi) {
    // quick interval refutation
    for (auto &l : qi) { i128 a, b; linRange(f, l, a, b); if (b < 0) return false; }
    for (auto &l : qe) { i128 a, b; linRange(f, l, a, b); if (a > 0 || b < 0) return false; }
    std::vector<Lin> eqs = qe, ins = qi;
    std::set<u32> syms; std::vector<u32> todo; std::set<const Lin*> used;
    std::map<u32,std::set<u32>> slices; // parent -> slice symbols present
    auto addSyms = [&](const Lin&l) { for (auto &t : l.t) if (syms.insert(t.first).second) todo.push_back(t.first); };
    for (auto &l : qe) addSyms(l); for (auto &l : qi) addSyms(l);
    int guard = 0;
    std::set<u32> sliceDone;
    static int nest = 0;
    struct N { N() { nest++; } ~N() { nest--; } } nn;
    for (;;) {
        while (!todo.empty()) {
            if (++guard > 120) break;
            u32 s = todo.back(); todo.pop_back();
            i128 lo, hi; symRange(f, s, lo, hi);
            if (lo > hi) return false;
            if (lo == hi) { eqs.push_back(linAdd(linSym(s), linConst(lo), -1)); }
            else {
                ins.push_back(linAdd(linSym(s), linConst(lo), -1));
                ins.push_back(linAdd(linConst(hi), linSym(s), -1));
            }
            SymOp op = T.syms[s].op;
            if (op == S_SLICE) slices[T.syms[s].a].insert(s);
            else for (auto &x : f.rg) if (T.syms[x.first].op == S_SLICE && T.syms[x.first].a == s) slices[s].insert(x.first);
            if (op == S_LIN) { i128 k; if (wrapOf(f, s, k)) { Lin l = T.syms[s].lin; l.c += k * ((i128)1 << T.syms[s].w); l = linAdd(l, linSym(s), -1); eqs.push_back(l); addSyms(l); } }
            if (op == S_UDIV && T.syms[s].args.size() == 2 && T.syms[s].args[1].isConst() && nest < 3) {
                Lin a; if (tryLin(f, T.syms[s].args[0], a)) { i128 c = (i128)T.syms[s].args[1].c;
                    Lin r = linAdd(a, linSym(s), -c); ins.push_back(r); ins.push_back(linAdd(linConst(c - 1), r, -1)); addSyms(r); }
            }
            for (auto &l : f.eq) if (!used.count(&l)) for (auto &t : l.t) if (t.first == s) { used.insert(&l); eqs.push_back(l); addSyms(l); break; }
            for (auto &l : f.in) if (!used.count(&l)) for (auto &t : l.t) if (t.first == s) { used.insert(&l); ins.push_back(l); addSyms(l); break; }
        }
        // slice relations
        bool more = false;
        for (auto &e : slices) {
            u32 p = e.first; if (sliceDone.count(p)) continue;
            bool par = syms.count(p);
            if (!par && e.second.size() < 2) {
                // a lone slice: relate to the parent if the parent has facts
                bool rel = f.rg.count(p) || T.syms[p].op == S_LIN || T.syms[p].op == S_UDIV;
                if (!rel) for (auto &l : f.in) for (auto &t : l.t) if (t.first == p || (T.syms[t.first].op == S_SLICE && T.syms[t.first].a == p && t.first != *e.second.begin())) rel = true;
                if (!rel) { u32 q = *e.second.begin(), ql = T.syms[q].lo, qh = ql + T.syms[q].w; for (auto &x : f.rg) if (x.first != q && T.syms[x.first].op == S_SLICE && T.syms[x.first].a == p && T.syms[x.first].lo <= ql && T.syms[x.first].lo + T.syms[x.first].w >= qh) { rel = true; break; } }
                if (!rel) continue;
            }
            sliceDone.insert(p); more = true;
            std::set<u32> cuts = {0, T.syms[p].w};
            for (u32 s : e.second) { cuts.insert(T.syms[s].lo); cuts.insert(T.syms[s].lo + T.syms[s].w); }
            for (auto &l : f.in) for (auto &t : l.t) if (T.syms[t.first].op == S_SLICE && T.syms[t.first].a == p) { cuts.insert(T.syms[t.first].lo); cuts.insert(T.syms[t.first].lo + T.syms[t.first].w); }
            std::vector<u32> cv(cuts.begin(), cuts.end());
            Lin whole;
            for (size_t i = 0; i + 1 < cv.size(); i++) { u32 q = sliceSym(p, cv[i], cv[i+1] - cv[i]); if (T.syms[p].w <= 100) whole = linAdd(whole, linSym(q), (i128)1 << cv[i]); }
            if (cv.size() > 2 && T.syms[p].w <= 100) { whole = linAdd(whole, linSym(p), -1); eqs.push_back(whole); addSyms(whole); }
            auto es = e.second;
            for (auto &x : f.rg) if (T.syms[x.first].op == S_SLICE && T.syms[x.first].a == p) es.insert(x.first);
            for (u32 s : es) {
                u32 lo = T.syms[s].lo, en = lo + T.syms[s].w; if (!cuts.count(lo) || !cuts.count(en)) continue;
                Lin l; int n = 0; for (size_t i = 0; i + 1 < cv.size(); i++) if (cv[i] >= lo && cv[i] < en) { l = linAdd(l, linSym(sliceSym(p, cv[i], cv[i+1] - cv[i])), (i128)1 << (cv[i] - lo)); n++; }
                if (n > 1) { l = linAdd(l, linSym(s), -1); eqs.push_back(l); addSyms(l); }
            }
        }
        if (!more && todo.empty()) break;
        if (guard > 120) break;
    }
    return feasible(eqs, ins);
}
bool implied(const Facts&f, const Lin&l) {
    i128 a, b; linRange(f, l, a, b); if (a >= 0) return true; if (b < 0) return false;
    Lin n = linAdd(linConst(-1), l, -1);
    return !possible(f, {}, {n});
}
// refine the bits of a symbol from its range: common leading bits of lo and hi
static bool refineSym(Facts&f, u32 s) {
    for (int it = 0; it < 3; it++) {
        i128 lo, hi; symRange(f, s, lo, hi); if (lo > hi) return false;
        unsigned w = T.syms[s].w; SymOp op = T.syms[s].op; if (op == S_PACK) return true;
        u32 par = s, base = 0; if (op == S_SLICE) { par = T.syms[s].a; base = T.syms[s].lo; }
        bool ch = false; unsigned known = w;
        for (int i = w - 1; i >= 0; i--) {
            bool x = (lo >> i) & 1, y = (hi >> i) & 1; if (x != y) break; known = i;
            Bit b = simpBit(f, symBit(par, base + i));
            if (b < 2) { if ((b == B1) != x) return false; continue; }
            if (!assumeBit(f, b, x)) return false; ch = true;
        }
        // the remaining low bits are the range less the known leading bits
        if (known && known < w && known < 100) {
            u32 q = sliceSym(par, base, known); i128 m = ((i128)1 << known) - 1, ql = lo & m, qh = hi & m, a, b; symRange(f, q, a, b);
            if (std::max(a, ql) > std::min(b, qh)) return false;
            if (ql > a || qh < b) { f.rg[q] = {std::max(a, ql), std::min(b, qh)}; f.changed(); }
        }
        if (!ch) break;
    }
    return true;
}
static bool addRange(Facts&f, u32 s, i128 lo, i128 hi) {
    i128 a, b; symRange(f, s, a, b);
    if (lo <= a && hi >= b) return true;
    lo = std::max(lo, a); hi = std::min(hi, b); if (lo > hi) return false;
    f.rg[s] = {lo, hi}; f.changed();
    return refineSym(f, s);
}
bool addIn(Facts&f, const Lin&l0) {
    Lin l = l0;
    if (l.t.empty()) return l.c >= 0;
    i128 a, b; linRange(f, l, a, b); if (a >= 0) return true; if (b < 0) return false;
    if (l.t.size() == 1) {
        i128 k = l.t[0].second;
        if (k > 0) { if (!addRange(f, l.t[0].first, -fdiv(l.c, k), (i128)1 << 100)) return false; }
        else { if (!addRange(f, l.t[0].first, 0, fdiv(l.c, -k))) return false; }
    } else {
        for (auto &x : f.in) if (x.t == l.t) { if (x.c <= l.c) return true; }
        if (!possible(f, {}, {l})) return false;
        f.in.push_back(l); f.changed();
    }
    return possible(f, {}, {l});
}
bool addEq(Facts&f, const Lin&l) {
    if (l.t.empty()) return l.c == 0;
    if (l.t.size() == 1) { i128 k = l.t[0].second; if (l.c % k) return false; i128 v = -l.c / k; if (v < 0) return false;
        return addRange(f, l.t[0].first, v, v) && setSymConst(f, l.t[0].first, (u128)v); }
    if (!possible(f, {l}, {})) return false;
    for (auto &x : f.eq) if (x == l) return true;
    f.eq.push_back(l); f.changed();
    return true;
}
bool setSymConst(Facts&f, u32 s, u128 c) {
    unsigned w = T.syms[s].w; SymOp op = T.syms[s].op;
    if (w < 128 && (c >> w)) return false;
    for (unsigned i = 0; i < w; i++) {
        Bit b = op == S_PACK ? T.syms[s].bits[i] : op == S_SLICE ? symBit(T.syms[s].a, T.syms[s].lo + i) : symBit(s, i);
        if (!assumeBit(f, b, (c >> i) & 1)) return false;
    }
    return true;
}

// ------------------------------------------------------------ assume / decide
static bool icmpFacts(Facts&f, u32 s, bool v) {
    std::vector<Val> args = T.syms[s].args; int code = T.syms[s].code;
    Val a = simpVal(f, args[0]), b = simpVal(f, args[1]);
    if (code == 'e') {
        if (v) {
            if (a.k != K_LIN && b.k != K_LIN) {
                auto x = bitsOf(a), y = bitsOf(b);
                for (size_t i = 0; i < x.size(); i++) if (!assumeBit(f, bxor(x[i], y[i]), false)) return false;
            } else {
                if (b.isConst()) {
                    ModLin d = toMod(a, a.w); d.c -= (i128)b.c; canonMod(d, a.w);
                    if (d.t.size() == 1 && (d.t[0].second == 1 || d.t[0].second == -1)) {
                        u128 c = (u128)(d.t[0].second == 1 ? -d.c : d.c) & maskw(a.w);
                        return setSymConst(f, d.t[0].first, c);
                    }
                }
                // orient: prefer positive terms on both sides
                Lin A, B;
                if (a.k == K_LIN && b.isConst()) {
                    ModLin p, n; for (auto &t : a.n->lin.t) (t.second > 0 ? p : n).t.push_back({t.first, t.second > 0 ? t.second : -t.second});
                    i128 c = a.n->lin.c - (i128)b.c; Val x, y;
                    if (c >= 0) p.c = c; else n.c = -c;
                    x = mkLin(a.w, p); y = mkLin(a.w, n);
                    A = toLin(f, x); B = toLin(f, y);
                } else { A = toLin(f, a); B = toLin(f, b); }
                return addEq(f, linAdd(A, B, -1));
            }
        } else {
            // a != b : useful at the boundary of a range
            Lin A, B; if (!tryLin(f, a, A) || !tryLin(f, b, B)) return true;
            Lin d = linAdd(A, B, -1); i128 lo, hi; linRange(f, d, lo, hi);
            if (lo == 0 && hi == 0) return false;
            if (lo == 0) return addIn(f, linAdd(d, linConst(1), -1));
            if (hi == 0) return addIn(f, linAdd(linConst(-1), d, -1));
            if (d.t.size() <= 3) {
                Lin lt = linAdd(linConst(-1), d, -1), gt = linAdd(d, linConst(1), -1);
                bool pl = possible(f, {}, {lt}), pg = possible(f, {}, {gt});
                if (!pl && !pg) return false;
                if (!pl) return addIn(f, gt);
                if (!pg) return addIn(f, lt);
            }
        }
        return true;
    }
    Lin A = toLin(f, a), B = toLin(f, b);
    if (v) { if (!addIn(f, linAdd(linAdd(B, A, -1), linConst(1), -1))) return false; }
    else { if (!addIn(f, linAdd(A, B, -1))) return false; }
    return true;
}
static bool setAtom(Facts&f, u32 atom, Bit val) {
    auto it = f.sub.find(atom);
    if (it != f.sub.end()) { Bit o = simpBit(f, it->second); return assumeBit(f, bxor(o, val), false); }
    f.sub[atom] = val; f.changed();
    u32 s = T.atoms[atom].sym;
    if (val < 2) {
        if (T.syms[s].op == S_ICMP) { f.ic.push_back(atom); return icmpFacts(f, s, val == B1); }
        if (T.syms[s].op == S_BOOL) {
            Bit a = simpBit(f, T.syms[s].bits[0]), b = simpBit(f, T.syms[s].bits[1]);
            if (T.syms[s].code == '&') {
                if (val == B1) return assumeBit(f, a, true) && assumeBit(f, b, true);
                if (a == B1) return assumeBit(f, b, false);
                if (b == B1) return assumeBit(f, a, false);
                if (a == B0 || b == B0) return true;
            } else {
                if (a < 2) return assumeBit(f, b, (a ^ val) == B1);
                if (b < 2) return assumeBit(f, a, (b ^ val) == B1);
            }
        }
        if (T.syms[s].op == S_LIN || T.syms[s].op == S_UDIV) {
            i128 lo, hi; symRange(f, s, lo, hi); if (lo > hi) return false;
        }
    }
    return true;
}
static Bit cofactor(Bit b, u32 atom, bool v) {
    std::vector<u32> p = T.anfs[b]; Bit r = B0;
    for (u32 m : p) {
        std::vector<u32> mm = T.monos[m]; auto it = std::find(mm.begin(), mm.end(), atom);
        if (it == mm.end()) { r = bxor(r, internAnf({m})); continue; }
        if (!v) continue;
        mm.erase(it); r = bxor(r, internAnf({internMono(mm)}));
    }
    return r;
}
static std::set<u32> atomsOf(Bit b) { std::set<u32> s; if (b >= 2) for (u32 m : T.anfs[b]) for (u32 a : T.monos[m]) s.insert(a); return s; }
static int adepth = 0;
// assumed comparisons whose operands have been substituted since
static bool recheck(Facts&f) {
    for (int round = 0; round < 4; round++) {
        bool ch = false;
        for (size_t i = 0; i < f.ic.size(); i++) {
            u32 atom = f.ic[i]; auto it = f.sub.find(atom);
            Bit v = it == f.sub.end() ? (Bit)99 : simpBit(f, it->second);
            if (it == f.sub.end() || v >= 2) { f.ic.erase(f.ic.begin() + i--); continue; }
            u32 s = T.atoms[atom].sym; std::vector<Val> args = T.syms[s].args; int code = T.syms[s].code;
            Val a = simpVal(f, args[0]), b = simpVal(f, args[1]);
            if (a.k == K_LIN || b.k == K_LIN) continue;
            int r = -1;
            if (code == 'e') {
                auto x = bitsOf(a), y = bitsOf(b); int unk = 0; Bit last = B0; r = 1;
                for (size_t k = 0; k < x.size() && r; k++) { Bit d = simpBit(f, bxor(x[k], y[k])); if (d == B1) r = 0; else if (d != B0) { if (unk && d == last) continue; unk++; last = d; } }
                if (r == 1 && unk) {
                    r = -1;
                    if (unk == 1 && v == B0) { f.ic.erase(f.ic.begin() + i--); if (!assumeBit(f, last, true)) return false; ch = true; continue; }
                }
            } else {
                i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh);
                if (ah < bl) r = 1; else if (al >= bh) r = 0;
            }
            if (r < 0) continue;
            if (r != (v == B1)) return false;
            f.ic.erase(f.ic.begin() + i--);
        }
        if (!ch) break;
    }
    return true;
}
static bool assumeBit1(Facts&f, Bit b, bool v);
bool assumeBit(Facts&f, Bit b, bool v) {
    if (adepth) return assumeBit1(f, b, v);
    size_t n = f.sub.size();
    if (!assumeBit1(f, b, v)) return false;
    if (f.sub.size() == n || f.ic.empty()) return true;
    adepth++; struct D { ~D() { adepth--; } } d;
    return recheck(f);
}
static bool assumeBit1(Facts&f, Bit b, bool v) {
    struct D { D() { adepth++; } ~D() { adepth--; } } d;
    if (adepth > 400) throw Inconclusive{"assume recursion"};
    b = simpBit(f, b);
    if (b < 2) return (b == B1) == v;
    Bit e = v ? b : bnot(b);
    for (;;) {
        e = simpBit(f, e);
        if (e < 2) return e == B1;
        u32 at; bool neg;
        if (asAtom(e, at, neg)) {
            // an undecided comparison may be refuted by the linear facts
            return setAtom(f, at, neg ? B0 : B1);
        }
        bool forced = false;
        for (u32 a : atomsOf(e)) {
            if (cofactor(e, a, true) == B0) { if (!setAtom(f, a, B0)) return false; forced = true; break; }
            if (cofactor(e, a, false) == B0) { if (!setAtom(f, a, B1)) return false; forced = true; break; }
        }
        if (forced) continue;
        break;
    }
    // linear pivot
    for (u32 m : T.anfs[e]) if (T.monos[m].size() == 1) {
        u32 a = T.monos[m][0]; SymOp op = T.syms[T.atoms[a].sym].op;
        if (op == S_ICMP || op == S_BOOL || op == S_LIN || op == S_UDIV || op == S_OP) continue;
        int n = 0; for (u32 q : T.anfs[e]) if (std::find(T.monos[q].begin(), T.monos[q].end(), a) != T.monos[q].end()) n++;
        if (n == 1) { Bit rest = bxor(e, atomBit(a)); return setAtom(f, a, bnot(rest)); }
    }
    u32 a = *atomsOf(e).begin();
    throw NeedFork{{ Alt{[a](Facts&g) { return assumeBit(g, atomBit(a), false); }}, Alt{[a](Facts&g) { return assumeBit(g, atomBit(a), true); }} }};
}
// decide one comparison atom from the linear facts; -1 unknown
static int decideIcmp(const Facts&f, u32 s) {
    std::vector<Val> args = T.syms[s].args; int code = T.syms[s].code;
    Val a = simpVal(f, args[0]), b = simpVal(f, args[1]);
    i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh);
    if (code == 'e') {
        if (ah < bl || bh < al) return 0;
        Lin A, B;
        if (a.k == K_LIN && b.isConst()) {
            ModLin p, n; for (auto &t : a.n->lin.t) (t.second > 0 ? p : n).t.push_back({t.first, t.second > 0 ? t.second : -t.second});
            i128 c = a.n->lin.c - (i128)b.c; if (c >= 0) p.c = c; else n.c = -c;
            A = toLin(f, mkLin(a.w, p)); B = toLin(f, mkLin(a.w, n));
        } else { A = toLin(f, a); B = toLin(f, b); }
        Lin d = linAdd(A, B, -1);
        if (!possible(f, {d}, {})) return 0;
        if (!possible(f, {}, {linAdd(linConst(-1), d, -1)}) && !possible(f, {}, {linAdd(d, linConst(1), -1)})) return 1;
        return -1;
    }
    if (ah < bl) return 1;
    if (al >= bh) return 0;
    Lin A = toLin(f, a), B = toLin(f, b);
    Lin t = linAdd(linAdd(B, A, -1), linConst(1), -1), e = linAdd(A, B, -1);
    if (!possible(f, {}, {t})) return 0;
    if (!possible(f, {}, {e})) return 1;
    return -1;
}
int decideBit(const Facts&cf, Bit&b) {
    Facts &f = const_cast<Facts&>(cf); // only adds consequences
    for (int round = 0; round < 8; round++) {
        b = simpBit(f, b); if (b < 2) return b;
        bool prog = false;
        for (u32 a : atomsOf(b)) {
            u32 s = T.atoms[a].sym; SymOp op = T.syms[s].op;
            if (op == S_ICMP) {
                int d = decideIcmp(f, s);
                if (d >= 0) { f.sub[a] = d; f.changed(); prog = true; break; }
            } else if (op == S_BOOL) {
                Bit x = T.syms[s].bits[0], y = T.syms[s].bits[1]; int c = T.syms[s].code;
                int dx = decideBit(f, x), dy = decideBit(f, y); int r = -1;
                if (c == '&') { if (dx == 0 || dy == 0) r = 0; else if (dx == 1 && dy == 1) r = 1; }
                else if (dx >= 0 && dy >= 0) r = dx ^ dy;
                if (r >= 0) { f.sub[a] = r; f.changed(); prog = true; break; }
            }
        }
        if (!prog) return -1;
    }
    return -1;
}
bool proveBit(const Facts&f, Bit b, int depth) {
    int d = decideBit(f, b); if (d >= 0) return d;
    if (depth <= 0) return false;
    // split on an atom (comparisons first)
    u32 pick = ~0u; auto as = atomsOf(b);
    for (u32 a : as) { SymOp op = T.syms[T.atoms[a].sym].op; if (op == S_ICMP) { pick = a; break; } }
    if (pick == ~0u) {
        for (u32 a : as) if (T.syms[T.atoms[a].sym].op == S_BOOL) {
            Bit x = simpBit(f, T.syms[T.atoms[a].sym].bits[0]); auto xs = atomsOf(x); if (!xs.empty()) { pick = *xs.begin(); break; }
        }
    }
    if (pick == ~0u) { if (as.empty()) return false; pick = *as.begin(); }
    if (as.size() == 1 && !(T.syms[T.atoms[pick].sym].op == S_ICMP && depth > 20)) {
        if (T.syms[T.atoms[pick].sym].op != S_BOOL && as.count(pick)) return false; // plain atom: not determined
    }
    for (int v = 0; v < 2; v++) {
        Facts g(f);
        try { if (!assumeBit(g, atomBit(pick), v)) continue; if (!proveBit(g, b, depth - 1)) return false; }
        catch (Infeasible&) { continue; }
        catch (NeedFork &nf) {
            for (auto &al : nf.alts) { Facts h(g); try { if (!al.apply(h)) continue; if (!assumeBit(h, atomBit(pick), v)) continue; if (!proveBit(h, b, depth - 1)) return false; } catch (Infeasible&) {} }
        }
    }
    return true;
}

// ------------------------------------------------------------ comparisons
static Bit icmpAtom(int code, const Val&a, const Val&b) { return symBit(opSym(S_ICMP, code, 1, {a, b}), 0); }
Bit eqBit(const Facts&f, Val a, Val b) {
    if (valEq(a, b)) return B1;
    if (a.isConst() && b.isConst()) return a.c == b.c;
    unsigned w = a.w;
    if (a.k == K_LIN || b.k == K_LIN) {
        if (w > 100) throw Inconclusive{"wide linear comparison"};
        ModLin d = linAdd(toMod(a, w), toMod(b, w), -1); canonMod(d, w);
        if (d.t.empty()) return d.c == 0;
        if (d.t[0].second < 0) { d = linAdd(linConst(0), d, -1); canonMod(d, w); }
        if (d.t.size() == 1 && (d.t[0].second == 1)) {
            u32 s = d.t[0].first; unsigned sw = T.syms[s].w; u128 c = (u128)(-d.c) & maskw(w);
            if (sw < 128 && (c >> sw)) return B0;
            if (T.syms[s].op != S_LIN) { ModLin one = linSym(s); Val x = mkLin(w, one); if (x.k == K_BITS) return eqBit(f, x, mkConst(w, c)); }
        }
        i128 lo, hi; linRange(f, d, lo, hi); i128 m = (i128)1 << w;
        // no multiple of 2^w inside [lo,hi]: different
        i128 q = fdiv(lo + m - 1, m) * m; if (q > hi) return B0;
        i128 c0 = d.c; d.c = 0; Val l = mkLin(w, d);
        return icmpAtom('e', l, mkConst(w, (u128)(-c0)));
    }
    auto x = bitsOf(a), y = bitsOf(b);
    std::vector<Bit> un;
    for (size_t i = 0; i < x.size(); i++) { Bit z = bxor(x[i], y[i]); if (z == B1) return B0; if (z != B0) un.push_back(z); }
    if (un.empty()) return B1;
    std::sort(un.begin(), un.end()); un.erase(std::unique(un.begin(), un.end()), un.end());
    if (un.size() == 1) return bnot(un[0]);
    for (size_t i = 0; i + 1 < un.size(); i++) if (bxor(un[i], un[i+1]) == B1) return B0;
    size_t prod = 1; for (Bit u : un) { prod *= T.anfs[u].size() + 1; if (prod > 40) break; }
    if (un.size() <= 5 && prod <= 40) { Bit r = B1; for (Bit u : un) r = band(r, bnot(u)); return r; }
    if (w <= 100) { i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh); if (ah < bl || bh < al) return B0; }
    // the low parts may be one linear form under two names
    size_t hw = x.size(); while (hw && x[hw - 1] == y[hw - 1]) hw--;
    if (hw && hw <= 100) { ModLin d = linAdd(toMod(mkBits(std::vector<Bit>(x.begin(), x.begin() + hw)), hw), toMod(mkBits(std::vector<Bit>(y.begin(), y.begin() + hw)), hw), -1); canonMod(d, hw); if (d.t.empty()) return d.c == 0; }
    std::vector<u64> ka, kb; valKey(ka, a); valKey(kb, b); if (!b.isConst() && (a.isConst() || kb < ka)) std::swap(a, b);
    return icmpAtom('e', a, b);
}
Bit ultBit(const Facts&f, Val a, Val b) {
    if (valEq(a, b)) return B0;
    if (a.isConst() && b.isConst()) return a.c < b.c;
    unsigned w = a.w;
    i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh);
    if (ah < bl) return B1;
    if (al >= bh) return B0;
    // a whole symbol: keep the linear form, its range refines the leading bits
    auto whole = [&](const Val&v, u128 c) { Lin l; return c < ((u128)1 << 100) && v.k == K_BITS && tryLin(f, v, l) && l.t.size() == 1 && l.t[0].second == 1 && l.c == 0; };
    if (b.isConst() && b.c > 1 && whole(a, b.c)) return icmpAtom('u', a, b);
    if (a.isConst() && a.c > 0 && whole(b, a.c)) return icmpAtom('u', a, b);
    if (b.isConst() && b.c == 1) return eqBit(f, a, mkConst(w, 0));
    if (a.isConst() && a.c == 0) return bnot(eqBit(f, b, a));
    if (b.isConst() && a.k == K_BITS && (b.c & (b.c - 1)) == 0) {
        // a < 2^k : the upper bits are zero
        unsigned k = 0; while (!((b.c >> k) & 1)) k++;
        std::vector<Bit> up(a.n->bits.begin() + k, a.n->bits.end());
        return eqBit(f, mkBits(up), mkConst(up.size(), 0));
    }
    if (a.isConst() && b.k == K_BITS && ((a.c + 1) & a.c) == 0) {
        // 2^k - 1 < b : some upper bit is set
        unsigned k = 0; while ((a.c >> k) & 1) k++;
        std::vector<Bit> up(b.n->bits.begin() + k, b.n->bits.end());
        return bnot(eqBit(f, mkBits(up), mkConst(up.size(), 0)));
    }
    // small difference: strip equal leading bits
    if (a.k != K_LIN && b.k != K_LIN) {
        auto x = bitsOf(a), y = bitsOf(b);
        int i = w - 1; while (i >= 0 && x[i] == y[i]) i--;
        if (i < 0) return B0;
        if (i <= 2) { // exact formula on few bits
            Bit lt = B0; for (int j = 0; j <= i; j++) { Bit xe = bxor(x[j], y[j]); lt = bxor(band(xe, y[j]), band(bnot(xe), lt)); }
            return lt;
        }
        // x[i]=0,y[i]=1 known
        if (x[i] == B0 && y[i] == B1) return B1;
        if (x[i] == B1 && y[i] == B0) return B0;
        if (i + 1 < (int)w) {
            std::vector<Bit> xa(x.begin(), x.begin() + i + 1), ya(y.begin(), y.begin() + i + 1);
            return icmpAtom('u', mkBits(xa), mkBits(ya));
        }
    }
    return icmpAtom('u', a, b);
}
static Val flipMsb(const Val&a) {
    if (a.isConst()) return mkConst(a.w, a.c ^ ((u128)1 << (a.w - 1)));
    if (a.k == K_LIN) { ModLin l = a.n->lin; l.c += (i128)1 << (a.w - 1); return mkLin(a.w, l); }
    auto b = bitsOf(a); b.back() = bnot(b.back()); return mkBits(b);
}
Bit sltBit(const Facts&f, Val a, Val b) {
    if (a.isConst() && b.isConst()) { Val x = flipMsb(a), y = flipMsb(b); return x.c < y.c; }
    if (b.isConst() && b.c == 0 && a.k == K_BITS) return a.n->bits.back();
    if (a.isConst() && a.c == maskw(a.w) && b.k == K_BITS) return bnot(b.n->bits.back()); // -1 < b
    // both known non-negative (or both negative): unsigned comparison
    i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh); i128 h = (i128)1 << (a.w - 1);
    if ((ah < h && bh < h) || (al >= h && bl >= h)) return ultBit(f, a, b);
    if (ah < h && bl >= h) return B0;
    if (al >= h && bh < h) return B1;
    // one side constant: split on the sign of the other, so that both cases are unsigned comparisons
    u32 at; bool neg;
    auto under = [&](const Val&v, bool sign) { auto x = bitsOf(v); for (Bit &q : x) q = q < 2 ? q : cofactor(q, at, sign != neg); return mkBits(x); };
    if (b.isConst() && a.k == K_BITS && asAtom(a.n->bits.back(), at, neg)) {
        Bit s = a.n->bits.back();
        if ((i128)b.c < h) return bor(s, ultBit(f, under(a, false), b));
        return band(s, ultBit(f, under(a, true), b));
    }
    if (a.isConst() && b.k == K_BITS && asAtom(b.n->bits.back(), at, neg)) {
        Bit s = b.n->bits.back();
        if ((i128)a.c < h) return band(bnot(s), ultBit(f, a, under(b, false)));
        return bor(bnot(s), ultBit(f, a, under(b, true)));
    }
    return ultBit(f, flipMsb(a), flipMsb(b));
}

// ------------------------------------------------------------ arithmetic
Val truncTo(const Val&a, unsigned w) {
    if (a.w <= w) return a;
    if (a.isConst()) return mkConst(w, a.c);
    if (a.k == K_BITS) return mkBits(std::vector<Bit>(a.n->bits.begin(), a.n->bits.begin() + w));
    if (a.k == K_LIN) return mkLin(w, a.n->lin);
    throw Inconclusive{"trunc of pointer"};
}
Val zextTo(const Facts&f, const Val&a, unsigned w) {
    if (a.w >= w) return a;
    if (a.isConst()) return mkConst(w, a.c);
    if (a.k == K_LIN && w <= 100) { Lin l = toLin(f, a); return mkLin(w, l); }
    auto b = bitsOf(a); b.resize(w, B0); return mkBits(b);
}
Val sextTo(const Facts&f, const Val&a, unsigned w) {
    if (a.w >= w) return a;
    if (a.isConst()) { u128 c = a.c; if ((c >> (a.w - 1)) & 1) c |= maskw(w) & ~maskw(a.w); return mkConst(w, c); }
    if (a.k == K_LIN && w <= 100) {
        i128 h = (i128)1 << (a.w - 1);
        // value + 2^(w-1) mod 2^w  - 2^(w-1)
        Lin l = toLin(f, flipMsb(a)); l.c -= h; return mkLin(w, l);
    }
    auto b = bitsOf(a); Bit s = b.back(); b.resize(w, s); return mkBits(b);
}
Val extractBits(const Val&a, unsigned lo, unsigned len) {
    if (lo == 0 && len == a.w) return a;
    if (a.isConst()) return mkConst(len, a.c >> lo);
    if (a.k == K_LIN && lo == 0) return truncTo(a, len);
    auto b = bitsOf(a.isPtr() ? toIntVal(a) : a); return mkBits(std::vector<Bit>(b.begin() + lo, b.begin() + lo + len));
}
Val concat(const std::vector<Val>&p) {
    std::vector<Bit> b; for (auto &v : p) { auto x = bitsOf(v); b.insert(b.end(), x.begin(), x.end()); }
    // recombine a whole wrapped linear symbol
    Val r = mkBits(b);
    if (r.k == K_BITS && r.w <= 100) { u32 at; bool neg; if (asAtom(b[0], at, neg) && !neg && T.atoms[at].idx == 0 && T.syms[T.atoms[at].sym].op == S_LIN && T.syms[T.atoms[at].sym].w == r.w) {
        bool all = true; for (size_t i = 0; i < b.size(); i++) if (b[i] != symBit(T.atoms[at].sym, i)) all = false;
        if (all) return mkLin(r.w, T.syms[T.atoms[at].sym].lin); } }
    return r;
}
Val addC(const Val&a, i128 c) { if (!c) return a; if (a.isConst()) return mkConst(a.w, a.c + (u128)c); ModLin l = toMod(a, a.w); l.c += c; return mkLin(a.w, l); }
Val shiftc(const Facts&f, char op, const Val&a, unsigned k) {
    unsigned w = a.w; if (k == 0) return a;
    if (a.isConst()) {
        if (op == '<') return mkConst(w, a.c << k);
        if (op == '>') return mkConst(w, a.c >> k);
        Val s = sextTo(f, a, 128); i128 x = (i128)s.c; return mkConst(w, (u128)(x >> k));
    }
    if (op == '<' && a.k == K_LIN && w <= 100) { ModLin l; l = linAdd(l, a.n->lin, (i128)1 << k); return mkLin(w, l); }
    auto b = bitsOf(a); std::vector<Bit> r(w, B0);
    if (op == '<') { for (unsigned i = k; i < w; i++) r[i] = b[i - k]; }
    else { Bit fill = op == 'a' ? b[w - 1] : B0; for (unsigned i = 0; i < w; i++) r[i] = i + k < w ? b[i + k] : fill; }
    return mkBits(r);
}
Val arith(const Facts&f, int op, const Val&a0, const Val&b0) {
    Val a = a0.isPtr() ? toIntVal(a0) : a0, b = b0.isPtr() ? toIntVal(b0) : b0;
    unsigned w = a.w;
    if (a.isConst() && b.isConst()) {
        u128 x = a.c, y = b.c;
        switch (op) {
        case '+': return mkConst(w, x + y); case '-': return mkConst(w, x - y); case '*': return mkConst(w, x * y);
        case '&': return mkConst(w, x & y); case '|': return mkConst(w, x | y); case '^': return mkConst(w, x ^ y);
        case '/': if (y) return mkConst(w, x / y); break; case '%': if (y) return mkConst(w, x % y); break;
        case 's': case 'r': if (y) { i128 p = (i128)sextTo(f, a, 128).c, q = (i128)sextTo(f, b, 128).c; return mkConst(w, (u128)(op == 's' ? p / q : p % q)); } break;
        }
    }
    switch (op) {
    case '+': case '-': {
        if (op == '+' && a.k != K_LIN && b.k != K_LIN) {
            auto x = bitsOf(a), y = bitsOf(b); bool dis = true;
            for (unsigned i = 0; i < w; i++) if (x[i] != B0 && y[i] != B0) { dis = false; break; }
            // compound bits stay separate terms, so that sums have one form whatever their order
            if (dis && !a.isConst() && !b.isConst()) { u32 at; bool neg; for (Bit q : x) if (q > 1 && !asAtom(q, at, neg)) dis = false; for (Bit q : y) if (q > 1 && !asAtom(q, at, neg)) dis = false; }
            if (dis) { for (unsigned i = 0; i < w; i++) if (y[i] != B0) x[i] = y[i]; return mkBits(x); }
        }
        if (b.isConst() && b.c == 0) return a;
        if (w == 1) return arith(f, '^', a, b);
        if (w > 100) throw Inconclusive{"wide addition"};
        ModLin l = linAdd(toMod(a, w), toMod(b, w), op == '+' ? 1 : -1); return mkLin(w, l);
    }
    case '*': {
        if (w > 100) throw Inconclusive{"wide multiplication"};
        if (b.isConst() || a.isConst()) {
            const Val &c = b.isConst() ? b : a, &x = b.isConst() ? a : b;
            if (c.c == 0) return c; if (c.c == 1) return x;
            if ((c.c & (c.c - 1)) == 0) { unsigned k = 0; while (!((c.c >> k) & 1)) k++; return shiftc(f, '<', x, k); }
            ModLin l, m = toMod(x, w); i128 cc = (i128)c.c; if (w < 100 && cc >= ((i128)1 << (w - 1))) cc -= (i128)1 << w;
            ModLin mm; for (auto &t : m.t) { i128 p; if (__builtin_mul_overflow(t.second, cc, &p)) throw Inconclusive{"coefficient overflow"}; mm.t.push_back({t.first, p}); }
            i128 p; if (__builtin_mul_overflow(m.c, cc, &p)) throw Inconclusive{"coefficient overflow"}; mm.c = p;
            return mkLin(w, mm);
        }
        std::vector<u64> ka, kb; valKey(ka, a); valKey(kb, b);
        return kb < ka ? symVal(opSym(S_OP, '*', w, {b, a})) : symVal(opSym(S_OP, '*', w, {a, b}));
    }
    case '&': case '|': case '^': {
        if (op == '&' && b.isConst() && a.k == K_LIN) { // low mask: keep linear
            u128 m = b.c; if (m && ((m + 1) & m) == 0) { unsigned k = 0; while ((m >> k) & 1) k++; if (k == w) return a; auto x = bitsOf(a); }
        }
        auto x = bitsOf(a), y = bitsOf(b); std::vector<Bit> r(w);
        for (unsigned i = 0; i < w; i++) r[i] = op == '&' ? band(x[i], y[i]) : op == '|' ? bor(x[i], y[i]) : bxor(x[i], y[i]);
        return mkBits(r);
    }
    case '/': case '%': {
        i128 al, ah; if (w <= 120) range(f, a, al, ah); else { al = 0; ah = ((i128)1 << 126); }
        if (b.isConst() && b.c) {
            if ((b.c & (b.c - 1)) == 0) { unsigned k = 0; while (!((b.c >> k) & 1)) k++;
                return op == '/' ? shiftc(f, '>', a, k) : arith(f, '&', a, mkConst(w, b.c - 1)); }
            if (ah < (i128)b.c) return op == '/' ? mkConst(w, 0) : a;
            u32 q = opSym(S_UDIV, '/', w, {a, b});
            if (op == '/') return symVal(q);
            if (w > 100) throw Inconclusive{"wide remainder"};
            return mkLin(w, linAdd(toMod(a, w), linSym(q), -(i128)b.c));
        }
        i128 bl, bh; range(f, b, bl, bh); if (ah < bl) return op == '/' ? mkConst(w, 0) : a;
        if (op == '%') { // a - b*(a/b)
            Val q = symVal(opSym(S_OP, '/', w, {a, b})); (void)q; }
        return symVal(opSym(S_OP, op, w, {a, b}));
    }
    case 's': case 'r': {
        i128 al, ah, bl, bh; range(f, a, al, ah); range(f, b, bl, bh); i128 h = (i128)1 << (w - 1);
        if (ah < h && bh < h) return arith(f, op == 's' ? '/' : '%', a, b);
        return symVal(opSym(S_OP, op, w, {a, b}));
    }
    }
    throw Inconclusive{"arith"};
}
void joinFacts(const Facts&a, const Facts&b, Facts&o) {
    for (u32 x : a.ic) if (std::find(b.ic.begin(), b.ic.end(), x) != b.ic.end()) o.ic.push_back(x);
    for (auto &e : a.sub) { auto it = b.sub.find(e.first); if (it != b.sub.end() && it->second == e.second) o.sub[e.first] = e.second; }
    for (auto &e : a.rg) { auto it = b.rg.find(e.first); if (it != b.rg.end()) o.rg[e.first] = {std::min(e.second.first, it->second.first), std::max(e.second.second, it->second.second)};
        else { i128 lo, hi; symRange(b, e.first, lo, hi); o.rg[e.first] = {std::min(e.second.first, lo), std::max(e.second.second, hi)}; } }
    for (auto &e : b.rg) if (!a.rg.count(e.first)) { i128 lo, hi; symRange(a, e.first, lo, hi); o.rg[e.first] = {std::min(e.second.first, lo), std::max(e.second.second, hi)}; }
    for (auto &l : a.eq) if (std::find(b.eq.begin(), b.eq.end(), l) != b.eq.end() ) o.eq.push_back(l);
    for (auto &l : a.in) { bool k = std::find(b.in.begin(), b.in.end(), l) != b.in.end(); if (!k) k = implied(b, l); if (k) o.in.push_back(l); }
    for (auto &l : b.in) if (std::find(o.in.begin(), o.in.end(), l) == o.in.end() && implied(a, l)) o.in.push_back(l);
    for (auto &e : a.wrap) { auto it = b.wrap.find(e.first); if (it != b.wrap.end() && it->second == e.second) o.wrap[e.first] = e.second; }
}
