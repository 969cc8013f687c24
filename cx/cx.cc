// cx: abstract interpreter over LLVM IR. See DESIGN.md.
#include "state.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
using namespace llvm;
typedef ::Val Val_;
#define Val Val_

static Module *M; static const DataLayout *DL;
static const u32 FBASE = 1u << 18, DYN = 1u << 20;
static std::vector<GlobalVariable*> gvars; static std::unordered_map<const GlobalValue*, u32> gvId;
static std::vector<Function*> fns; static std::map<const Function*, u32> fnId;
static std::map<u32, sp<Obj>> globalInit;
static std::map<std::string, Function*> stubs; static std::string curProp;
static std::unordered_map<Function*, Function*> stubMap;
static std::vector<const Instruction*> callStack;
struct ObligRec { u64 n = 0; std::unordered_set<const Instruction*> sites; const Instruction *last = nullptr; };
static std::unordered_map<const char*, ObligRec> oblig;
static std::unordered_set<const Function*> fnsSeen; static u64 nInst, nPart, nMerge; 
static std::string curDriver; static u32 curCell; static bool verbose; static const Instruction *curInst;
static u64 optUnroll = 140, optMaxIter = 20000, optStates = 20000, optDisj = 4; static u64 returnsSeen;
static u64 instBudget = 400ull * 1000 * 1000; static bool optNoUndef = false, optDigits = false, optAligned = false;

struct Violation { std::string rule, msg, loc, stack; };
static std::map<std::string, Violation> viols;

struct Killed {};

static std::string locOf(const Instruction *I) {
    if (!I) return "?";
    if (const DebugLoc &d = I->getDebugLoc()) {
        auto *sc = cast<DIScope>(d.getScope()); std::string fn = sc->getFilename().str();
        if (fn.compare(0, 6, "/repo/") == 0) fn = fn.substr(6);
        return fn + ":" + std::to_string(d.getLine());
    }
    return I->getFunction()->getName().str();
}

static std::string fname(const Function *F) {
    if (auto *sp = F->getSubprogram()) return sp->getName().str();
    return F->getName().str();
}
[[noreturn]] static void violate(const std::string &rule, const std::string &msg) {
    Violation v; v.rule = rule; v.msg = msg; v.loc = locOf(curInst);
    std::string st = curInst ? fname(curInst->getFunction()) : "";
    for (int i = (int)callStack.size() - 1; i >= 0; i--) { if (!callStack[i]) continue; st += " <- " + fname(callStack[i]->getFunction()) + " (" + locOf(callStack[i]) + ")"; }
    v.stack = st;
    std::string key = rule + "|" + v.loc + "|" + msg.substr(0, 60);
    if (!viols.count(key) && viols.size() < 40) viols[key] = v;
    if (verbose) fprintf(stderr, "VIOL %s: %s at %s [%s]\n", rule.c_str(), msg.c_str(), v.loc.c_str(), st.c_str());
    throw Killed();
}
static void obligation(const char *rule) { auto &o = oblig[rule]; o.n++; if (curInst && curInst != o.last) { o.last = curInst; o.sites.insert(curInst); } }

// ------------------------------------------------------------------ base content registry
struct BaseKey { u32 uid; std::vector<u64> k; bool operator<(const BaseKey&o) const { return uid != o.uid ? uid < o.uid : k < o.k; } };
static std::map<BaseKey, std::map<i64, Cell>> baseReg;
static u32 uidCounter; static std::map<u64, u32> uidOf;

static Val undefVal(u32 uid, i64 off, unsigned n) {
    std::vector<Val> k = {mkConst(64, uid), mkConst(64, (u64)off)};
    u32 s = opSym(S_UNDEF, 0, n * 8, k); T.syms[s].name = "undef"; return symVal(s);
}
static std::map<u32,std::string> uidName;
static Cell baseCell(u32 uid, const std::vector<u64>&lk, i64 delta, unsigned n, const std::vector<Val>&keyv) {
    auto &mp = baseReg[{uid, lk}];
    auto it = mp.find(delta);
    if (it != mp.end()) return it->second;
    unsigned m = 1;
    for (unsigned c : {8u, 4u, 2u}) { if (n < c) continue; bool free = true; for (unsigned i = 0; i < c; i++) if (mp.count(delta + i)) free = false; if (free) { m = c; break; } }
    std::vector<Val> k = {mkConst(64, uid), mkConst(64, (u64)delta)}; for (auto &v : keyv) k.push_back(v);
    u32 s = opSym(S_MEM, 0, m * 8, k); T.syms[s].name = uidName.count(uid) ? uidName[uid] + "[" + (keyv.empty() ? "" : "..+") + std::to_string(delta) + "]" : "mem";
    V v = intern(symVal(s));
    for (unsigned i = 0; i < m; i++) mp[delta + i] = Cell{v, i};
    return mp[delta];
}
static V zeroByte() { return intern(mkConst(8, 0)); }
static Val cellsToVal(const std::vector<Cell>&c, u32 uid, i64 off) {
    unsigned n = c.size();
    if (c[0].v != CELL_UNDEF && c[0].v != CELL_SYM && c[0].i == 0) {
        bool same = true; for (unsigned i = 0; i < n; i++) if (c[i].v != c[0].v || c[i].i != i) { same = false; break; }
        const Val &v = VAL(c[0].v);
        if (same && (v.isPtr() ? 64 : v.w) == n * 8) return v;
    }
    std::vector<Val> parts;
    for (unsigned i = 0; i < n; ) {
        if (c[i].v == CELL_UNDEF) { parts.push_back(undefVal(uid, off + i, 1)); i++; continue; }
        unsigned j = i + 1; while (j < n && c[j].v == c[i].v && c[j].i == c[i].i + (j - i)) j++;
        const Val v = VAL(c[i].v);
        parts.push_back(extractBits(v.isPtr() ? toIntVal(v) : v, c[i].i * 8, (j - i) * 8)); i = j;
    }
    return concat(parts);
}
static void resolveCells(std::vector<Cell>&c, u32 uid, i64 off) {
    for (size_t i = 0; i < c.size(); i++) if (c[i].v == CELL_SYM) {
        unsigned run = 1; while (i + run < c.size() && c[i + run].v == CELL_SYM) run++;
        c[i] = baseCell(uid, {}, off + i, run, {});
    }
}
static Val fit(Val v, unsigned n) { (void)n; return v; }

// ------------------------------------------------------------------ objects
static sp<Obj> newObj(const Val &size, ObjKind k, u8 init, const std::string &name, u32 id) {
    sp<Obj> o(new Obj()); o->size = size; o->kind = k; o->init = init; o->name = name;
    o->uid = id; uidName[id] = name;
    if (size.isConst() && size.c <= 600000) {
        o->d.resize((size_t)size.c);
        for (auto &c : o->d) { c.v = init == 0 ? CELL_UNDEF : init == 1 ? zeroByte() : CELL_SYM; c.i = 0; }
    } else {
        o->dense = false; sp<LogNode> n(new LogNode()); n->t = LogNode::INIT; n->uid = id; n->init = init; o->log = n;
    }
    return o;
}
static void fillConst(std::vector<Cell>&d, u64 off, const Constant *C);
static Val constVal(const Constant *C);
static void putCells(std::vector<Cell>&d, u64 off, const Val&v, unsigned n);
static sp<Obj> globalObj(u32 id) {
    auto it = globalInit.find(id); if (it != globalInit.end()) return it->second;
    GlobalVariable *g = gvars[id - 1];
    u64 sz = DL->getTypeAllocSize(g->getValueType());
    sp<Obj> o(new Obj()); o->size = mkConst(64, sz); o->kind = OK_GLOBAL; o->ro = g->isConstant(); o->name = g->getName().str(); o->uid = id; uidName[id] = o->name;
    o->d.resize(sz);
    globalInit[id] = o;
    if (g->hasInitializer()) fillConst(o->d, 0, g->getInitializer());
    else if (o->name == "stderr" || o->name == "stdout" || o->name == "stdin") putCells(o->d, 0, mkPtr(id, mkConst(64, 0)), 8);
    else for (auto &c : o->d) c.v = CELL_SYM;
    return o;
}
static bool isBaseAligned(u32 id) { return id > gvars.size() ? optAligned : gvars[id - 1]->getAlign().valueOrOne().value() >= 16; }
static Obj* getObj(State&s, u32 id) {
    Obj *o = s.obj(id); if (o) return o;
    if (id && id <= gvars.size()) return globalObj(id).p;
    return nullptr;
}
static Obj* getMutObj(State&s, u32 id) {
    Obj *o = s.obj(id);
    if (!o && id && id <= gvars.size()) { s.mm().m[id] = globalObj(id); }
    return s.mobj(id);
}
static void putCells(std::vector<Cell>&d, u64 off, const Val&v, unsigned n) {
    V id = intern(v); for (unsigned i = 0; i < n; i++) { d[off + i].v = id; d[off + i].i = i; }
}
static void fillConst(std::vector<Cell>&d, u64 off, const Constant *C) {
    Type *t = C->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(C)) { V z = zeroByte(); for (u64 i = 0; i < sz; i++) { d[off + i].v = z; d[off + i].i = 0; } return; }
    if (isa<UndefValue>(C)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
        u64 es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) {
            if (cd->getElementType()->isIntegerTy()) putCells(d, off + i * es, mkConst(es * 8, cd->getElementAsInteger(i)), es);
            else fillConst(d, off + i * es, cd->getElementAsConstant(i));
        }
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) fillConst(d, off + i * es, ca->getOperand(i)); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(cs->getType());
        V z = zeroByte(); for (u64 i = 0; i < sz; i++) { d[off + i].v = z; d[off + i].i = 0; }
        for (unsigned i = 0; i < cs->getNumOperands(); i++) fillConst(d, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    Val v = constVal(C); u64 n = DL->getTypeStoreSize(t);
    if (!v.isPtr() && v.w < n * 8) v = mkConst(n * 8, v.c);
    putCells(d, off, v, n);
}
static Val gepConst(const GEPOperator *g) {
    Val p = constVal(cast<Constant>(g->getPointerOperand())); APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) throw Inconclusive{"constant gep"};
    p = toPtrVal(p); return mkPtr(p.base, addC(p.n->off, off.getSExtValue()));
}
static u128 apTo(const APInt&a) { u128 c = a.getRawData()[0]; if (a.getBitWidth() > 64) c |= (u128)a.getRawData()[1] << 64; return c; }
static Val constVal(const Constant *C) {
    if (auto *ci = dyn_cast<ConstantInt>(C)) return mkConst(ci->getBitWidth(), apTo(ci->getValue()));
    if (auto *cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return mkConst(a.getBitWidth(), apTo(a)); }
    if (isa<ConstantPointerNull>(C)) return mkNull();
    if (auto *gv = dyn_cast<GlobalVariable>(C)) return mkPtr(gvId[gv], mkConst(64, 0));
    if (auto *f = dyn_cast<Function>(C)) return mkPtr(fnId[f], mkConst(64, 0));
    if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
    if (isa<UndefValue>(C)) {
        if (C->getType()->isPointerTy()) return mkNull();
        if (auto *st = dyn_cast<StructType>(C->getType())) { std::vector<Val> a; for (unsigned i = 0; i < st->getNumElements(); i++) a.push_back(constVal(UndefValue::get(st->getElementType(i)))); return mkAgg(a); }
        if (auto *at = dyn_cast<ArrayType>(C->getType())) { std::vector<Val> a; for (unsigned i = 0; i < at->getNumElements(); i++) a.push_back(constVal(UndefValue::get(at->getElementType()))); return mkAgg(a); }
        unsigned w = DL->getTypeSizeInBits(C->getType());
        return symVal(opSym(S_UNDEF, 1, w, {}));
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        if (auto *g = dyn_cast<GEPOperator>(ce)) return gepConst(g);
        if (ce->getOpcode() == Instruction::PtrToInt) return toIntVal(constVal(ce->getOperand(0)));
        if (ce->getOpcode() == Instruction::IntToPtr) return toPtrVal(constVal(ce->getOperand(0)));
        if (ce->getOpcode() == Instruction::BitCast) return constVal(ce->getOperand(0));
    }
    if (C->getType()->isStructTy() || C->getType()->isArrayTy()) {
        std::vector<Val> a; unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) a.push_back(constVal(C->getAggregateElement(i)));
        return mkAgg(a);
    }
    throw Inconclusive{"unsupported constant"};
}

// ------------------------------------------------------------------ log memory
static void splitOff(const Val&off, std::vector<u64>&lk, std::vector<Val>&kv, i64&delta) {
    if (off.isConst()) { delta = (i64)(u64)off.c; return; }
    ModLin l = toMod(off, 64); delta = (i64)(u64)(u128)l.c; l.c = 0; Val b = mkLin(64, l); valKey(lk, b); kv.push_back(b);
}
static Val readLog(State&s, LogNode *n, const Val&off, unsigned nb);
static Val readSplit(State&s, LogNode *n, const Val&off, unsigned nb) {
    std::vector<Val> p; for (unsigned i = 0; i < nb; i++) { Val v = readLog(s, n, addC(off, i), 1); p.push_back(v.isPtr() ? toIntVal(v) : v); }
    return concat(p);
}
static Val readLog(State&s, LogNode *n, const Val&off0, unsigned nb) {
    Val off = simpVal(*s.f, off0);
    for (; n; n = n->prev.p) {
        switch (n->t) {
        case LogNode::INIT: {
            if (n->init == 1) return mkConst(nb * 8, 0);
            std::vector<u64> lk; std::vector<Val> kv; i64 d; splitOff(off, lk, kv, d);
            if (n->init == 0) { std::vector<Val> k = {mkConst(64, n->uid), mkConst(64, (u64)d)}; for (auto &v : kv) k.push_back(v); u32 q = opSym(S_UNDEF, 0, nb * 8, k); T.syms[q].name = "undef"; return symVal(q); }
            std::vector<Cell> c(nb); for (unsigned i = 0; i < nb; i++) c[i] = baseCell(n->uid, lk, d + i, nb - i, kv);
            return cellsToVal(c, n->uid, d);
        }
        case LogNode::DENSE: {
            if (off.isConst()) { u64 o = (u64)off.c; if (o + nb > n->cells.size()) return undefVal(n->uid, o, nb);
                std::vector<Cell> c(n->cells.begin() + o, n->cells.begin() + o + nb); resolveCells(c, n->uid, o); return cellsToVal(c, n->uid, o); }
            // all cells symbolic and untouched: keyed access
            bool allsym = true; for (auto &c : n->cells) if (c.v != CELL_SYM) { allsym = false; break; }
            Lin lo = toLin(*s.f, off); i128 a, b; range(*s.f, off, a, b);
            if ((i128)n->cells.size() < b) b = n->cells.size();
            if (allsym && b - a > 64) { std::vector<u64> lk; std::vector<Val> kv; i64 d; splitOff(off, lk, kv, d); std::vector<Cell> c(nb); for (unsigned i = 0; i < nb; i++) c[i] = baseCell(n->uid, lk, d + i, nb - i, kv); return cellsToVal(c, n->uid, d); }
            // an octet of a table of constants, under an index of a few unknown bits: each bit of the result is the polynomial of that column
            if (nb == 1 && b - a >= 4 && b - a < 16) {
                ModLin l = toMod(off, 64); u64 d = (u64)(u128)l.c; l.c = 0; std::vector<Bit> ob = bitsOf(simpVal(*s.f, mkLin(64, l))), free; std::vector<unsigned> at; u64 fixed = d;
                for (unsigned i = 0; i < 64; i++) { if (ob[i] == B1) fixed += 1ull << i; else if (ob[i] != B0) { free.push_back(ob[i]); at.push_back(i); } }
                if (free.size() <= 4) {
                    bool ok = true; std::vector<u8> tab(1u << free.size());
                    for (unsigned m = 0; ok && m < tab.size(); m++) { u64 o = fixed; for (unsigned i = 0; i < free.size(); i++) if (m >> i & 1) o += 1ull << at[i]; if ((i128)o < a || (i128)o > b || o >= n->cells.size()) continue; std::vector<Cell> c(1, n->cells[o]); resolveCells(c, n->uid, o); Val v = cellsToVal(c, n->uid, o); if (!v.isConst()) ok = false; else tab[m] = (u8)v.c; }
                    if (ok) {
                        std::vector<Bit> mono(tab.size(), B1); for (unsigned m = 1; m < tab.size(); m++) { unsigned i = __builtin_ctz(m); mono[m] = band(mono[m & (m - 1)], free[i]); }
                        for (unsigned i = 0; i < free.size(); i++) for (unsigned m = 0; m < tab.size(); m++) if (m >> i & 1) tab[m] ^= tab[m ^ (1u << i)];
                        std::vector<Bit> r(8, B0); for (unsigned m = 0; m < tab.size(); m++) for (unsigned k = 0; k < 8; k++) if (tab[m] >> k & 1) r[k] = bxor(r[k], mono[m]);
                        return simpVal(*s.f, mkBits(r));
                    }
                }
            }
            if (b - a > 600) throw Inconclusive{"symbolic index into a large table"};
            NeedFork nf; for (i128 k = a; k <= b; k++) { Lin e = lo; e.c -= k; if (!possible(*s.f, {e}, {})) continue; Val o = off; nf.alts.push_back({[e, o, k](Facts&g) { if (!addEq(g, e)) return false; Bit q = eqBit(g, simpVal(g, o), mkConst(64, (u128)k)); return assumeBit(g, q, true); }}); }
            if (nf.alts.empty()) throw Infeasible();
            throw nf;
        }
        default: break;
        }
        // relation between [off, off+nb) and [n->off, n->off+len)
        Val woff = simpVal(*s.f, n->off); Val wlen = n->t == LogNode::WRITE ? mkConst(64, n->n) : simpVal(*s.f, n->len);
        ModLin dm = linAdd(toMod(off, 64), toMod(woff, 64), -1); canonMod(dm, 64);
        if (dm.t.empty() && wlen.isConst()) {
            i64 d = (i64)dm.c; i64 wl = (i64)(u64)wlen.c;
            if (d + (i64)nb <= 0 || d >= wl) continue;
            if (d >= 0 && d + (i64)nb <= wl) goto inside;
            return readSplit(s, n, off, nb);
        }
        {
            Lin o = toLin(*s.f, off), w = toLin(*s.f, woff), l = toLin(*s.f, wlen);
            Lin below = linAdd(w, o, -1); below.c -= nb;           // w - o - nb >= 0
            Lin above = linAdd(linAdd(o, w, -1), l, -1);           // o - w - l >= 0
            Lin in1 = linAdd(o, w, -1), in2 = linAdd(linAdd(w, l, 1), o, -1); in2.c -= nb;
            if (implied(*s.f, below) || implied(*s.f, above)) continue;
            if (wlen.isConst() && wlen.c == 0) continue;
            if (implied(*s.f, in1) && implied(*s.f, in2)) goto inside;
            if (nb > 1) {
                // partial overlap possible?
                bool part = possible(*s.f, {}, {linAdd(linConst(-1), in1, -1), linAdd(linConst(-1), below, -1)}) || possible(*s.f, {}, {linAdd(linConst(-1), in2, -1), linAdd(linConst(-1), above, -1)});
                if (part) return readSplit(s, n, off, nb);
            }
            NeedFork nf;
            nf.alts.push_back({[below](Facts&g) { return addIn(g, below); }});
            nf.alts.push_back({[above](Facts&g) { return addIn(g, above); }});
            nf.alts.push_back({[in1, in2](Facts&g) { return addIn(g, in1) && addIn(g, in2); }});
            throw nf;
        }
    inside:
        if (n->t == LogNode::WRITE) {
            if (dm.t.empty()) {
                i64 d = (i64)dm.c; Val v = VAL(n->v); if (d == 0 && nb == n->n) return v;
                return extractBits(v.isPtr() ? toIntVal(v) : v, d * 8, nb * 8);
            }
            if (n->n == nb) { return VAL(n->v); } // fully inside and same length: equal offsets
            { NeedFork nf; Lin o = toLin(*s.f, off), w = toLin(*s.f, woff); for (unsigned k = 0; k + nb <= n->n; k++) { Lin e = linAdd(o, w, -1); e.c -= k; nf.alts.push_back({[e](Facts&g) { return addEq(g, e); }}); } 
              // after the fork the difference is fixed by equalities; find it
              for (unsigned k = 0; k + nb <= n->n; k++) { Lin e = linAdd(o, w, -1); e.c -= k; if (implied(*s.f, e) && implied(*s.f, linAdd(Lin(), e, -1))) { Val v = VAL(n->v); return extractBits(v.isPtr() ? toIntVal(v) : v, k * 8, nb * 8); } }
              throw nf; }
        }
        if (n->t == LogNode::SET) { const Val v = VAL(n->v); std::vector<Val> p(nb, v); return concat(p); }
        { // COPY
            ModLin so = linAdd(toMod(n->srcOff, 64), dm, 1); return readLog(s, n->src.p, mkLin(64, so), nb);
        }
    }
    throw Inconclusive{"empty write history"};
}
static sp<LogNode> snapshot(Obj *o) {
    if (!o->dense) return o->log;
    sp<LogNode> n(new LogNode()); n->t = LogNode::DENSE; n->uid = o->uid; n->cells = o->d; return n;
}
static void toLog(Obj *o) { if (o->dense) { o->log = snapshot(o); o->dense = false; o->d.clear(); } }

// ------------------------------------------------------------------ access checking
static Val simpS(State&s, const Val&v) { return simpVal(*s.f, v); }
static std::string objName(Obj *o) { return o->name.empty() ? "object" : o->name; }
// checks [p, p+len) ; returns the object
static Obj* access(State&s, Val p, const Val&len, bool wr, const char *what) {
    p = toPtrVal(p);
    obligation(wr ? "write-in-bounds" : "read-in-bounds");
    if (p.base == 0) violate(wr ? "invalid-write" : "invalid-read", std::string(what) + " through a null or unknown pointer");
    if (p.base >= FBASE && p.base < DYN) violate("invalid-access", "access to a function address");
    Obj *o = getObj(s, p.base);
    if (!o) violate(wr ? "invalid-write" : "invalid-read", std::string(what) + " through a pointer to a freed, moved or out-of-scope object");
    if (wr && o->ro) violate("invalid-write", std::string(what) + " modifies read-only memory " + objName(o));
    Val off = simpS(s, p.n->off), sz = simpS(s, o->size), ln = simpS(s, len);
    if (off.isConst() && sz.isConst() && ln.isConst()) {
        if (off.c > sz.c || ln.c > sz.c - off.c) violate(wr ? "out-of-bounds-write" : "out-of-bounds-read", std::string(what) + " of " + std::to_string((u64)ln.c) + " byte(s) at offset " + std::to_string((i64)(u64)off.c) + " of " + objName(o) + " (" + std::to_string((u64)sz.c) + " bytes)");
        return o;
    }
    Lin a = toLin(*s.f, off), b = toLin(*s.f, sz), c = toLin(*s.f, ln);
    Lin room = linAdd(linAdd(b, a, -1), c, -1);
    if (!implied(*s.f, room)) violate(wr ? "out-of-bounds-write" : "out-of-bounds-read", std::string(what) + ": not established that offset " + linStr(a) + " + length " + linStr(c) + " <= size " + linStr(b) + " of " + objName(o));
    return o;
}
static Val loadBytes(State&s, const Val&p0, unsigned n) {
    Val p = toPtrVal(p0); Obj *o = access(s, p, mkConst(64, n), false, "load");
    Val off = simpS(s, p.n->off);
    if (o->dense) {
        if (off.isConst()) {
            u64 x = (u64)off.c; std::vector<Cell> c(o->d.begin() + x, o->d.begin() + x + n);
            resolveCells(c, o->uid, x); return cellsToVal(c, o->uid, x);
        }
        sp<LogNode> snap = snapshot(o); return readLog(s, snap.p, off, n);
    }
    return readLog(s, o->log.p, off, n);
}
static void storeBytes(State&s, const Val&p0, const Val&v, unsigned n) {
    Val p = toPtrVal(p0); access(s, p, mkConst(64, n), true, "store");
    Val off = simpS(s, p.n->off);
    Obj *o = getMutObj(s, p.base); o->cstr = 0;
    if (o->dense && off.isConst()) { putCells(o->d, (u64)off.c, v, n); return; }
    toLog(o);
    sp<LogNode> w(new LogNode()); w->t = LogNode::WRITE; w->prev = o->log; w->off = off; w->v = intern(v); w->n = n; w->uid = o->uid; o->log = w;
}
static bool overlapPossible(State&s, const Val&p, const Val&q, const Val&len) {
    if (p.base != q.base) return false;
    Lin a = toLin(*s.f, p.n->off), b = toLin(*s.f, q.n->off), l = toLin(*s.f, len);
    Lin d1 = linAdd(linAdd(b, a, -1), l, -1), d2 = linAdd(linAdd(a, b, -1), l, -1);
    return !implied(*s.f, d1) && !implied(*s.f, d2);
}
static void copyBytes(State&s, const Val&d0, const Val&s0, const Val&len0, bool move) {
    Val len = simpS(s, len0);
    if (len.isConst() && len.c == 0) return;
    Val d = toPtrVal(simpS(s, d0)), q = toPtrVal(simpS(s, s0));
    if (d.base == 0 || q.base == 0) { // maybe length zero
        Bit z = eqBit(*s.f, len, mkConst(64, 0)); int r = decideBit(*s.f, z);
        if (r == 1) return;
        if (r < 0) throw NeedFork{{Alt{[z](Facts&g) { return assumeBit(g, z, true); }}, Alt{[z](Facts&g) { return assumeBit(g, z, false); }}}};
    }
    Obj *so = access(s, q, len, false, "copy source");
    access(s, d, len, true, "copy destination");
    if (!move) { obligation("copy-no-overlap"); if (overlapPossible(s, d, q, len)) violate("copy-overlap", "memcpy between possibly overlapping ranges"); }
    Val doff = simpS(s, d.n->off), soff = simpS(s, q.n->off);
    so = getObj(s, q.base);
    if (len.isConst() && doff.isConst() && getObj(s, d.base)->dense) {
        u64 n = (u64)len.c, x = (u64)doff.c;
        if (so->dense && soff.isConst()) {
            std::vector<Cell> c(so->d.begin() + (u64)soff.c, so->d.begin() + (u64)soff.c + n);
            // symbolic base bytes keep their identity
            for (size_t i = 0; i < c.size(); i++) if (c[i].v == CELL_SYM) { unsigned run = 1; while (i + run < n && run < 8 && c[i + run].v == CELL_SYM) run++; c[i] = baseCell(so->uid, {}, (i64)(u64)soff.c + i, (((u64)soff.c + i) % 8) ? 1 : run, {}); }
            Obj *o = getMutObj(s, d.base); o->cstr = 0; std::copy(c.begin(), c.end(), o->d.begin() + x); return;
        }
        if (n <= 64) {
            sp<LogNode> snap = snapshot(so); std::vector<Val> vs; std::vector<unsigned> ws;
            u64 i = 0; while (i < n) { unsigned w = (n - i) >= 8 ? 8 : (n - i) >= 4 ? 4 : (n - i) >= 2 ? 2 : 1; vs.push_back(readLog(s, snap.p, addC(soff, i), w)); ws.push_back(w); i += w; }
            Obj *o = getMutObj(s, d.base); o->cstr = 0; u64 at = x; for (size_t k = 0; k < vs.size(); k++) { putCells(o->d, at, vs[k], ws[k]); at += ws[k]; } return;
        }
    }
    sp<LogNode> snap = snapshot(so);
    Obj *o = getMutObj(s, d.base); o->cstr = 0; toLog(o);
    sp<LogNode> w(new LogNode()); w->t = LogNode::COPY; w->prev = o->log; w->off = doff; w->len = len; w->src = snap; w->srcOff = soff; w->uid = o->uid; o->log = w;
}
static void setBytes(State&s, const Val&d0, const Val&byte, const Val&len0) {
    Val len = simpS(s, len0); if (len.isConst() && len.c == 0) return;
    Val d = toPtrVal(simpS(s, d0));
    if (d.base == 0) { Bit z = eqBit(*s.f, len, mkConst(64, 0)); int r = decideBit(*s.f, z); if (r == 1) return;
        if (r < 0) throw NeedFork{{Alt{[z](Facts&g) { return assumeBit(g, z, true); }}, Alt{[z](Facts&g) { return assumeBit(g, z, false); }}}}; }
    access(s, d, len, true, "fill"); Val doff = simpS(s, d.n->off);
    Obj *o = getMutObj(s, d.base); o->cstr = 0;
    if (o->dense && doff.isConst() && len.isConst()) { V b = intern(byte); for (u64 i = 0; i < (u64)len.c; i++) { o->d[(u64)doff.c + i].v = b; o->d[(u64)doff.c + i].i = 0; } return; }
    toLog(o);
    sp<LogNode> w(new LogNode()); w->t = LogNode::SET; w->prev = o->log; w->off = doff; w->len = len; w->v = intern(byte); w->uid = o->uid; o->log = w;
}

// ------------------------------------------------------------------ typed load/store
static Val loadTy(State&s, const Val&p, Type *t) {
    if (t->isStructTy() || t->isArrayTy()) {
        std::vector<Val> a; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            u64 o = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
            Val q = toPtrVal(p); a.push_back(loadTy(s, mkPtr(q.base, addC(q.n->off, o)), t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
        }
        return mkAgg(a);
    }
    if (t->isVectorTy()) throw Inconclusive{"vector type"};
    unsigned n = DL->getTypeStoreSize(t); Val v = simpS(s, loadBytes(s, p, n));
    if (t->isPointerTy()) return toPtrVal(v);
    if (v.isPtr()) v = toIntVal(v);
    unsigned w = DL->getTypeSizeInBits(t); if (w < v.w) v = truncTo(v, w);
    return v;
}
static void storeTy(State&s, const Val&p, const Val&v, Type *t) {
    if (t->isStructTy() || t->isArrayTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            u64 o = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->getArrayElementType());
            Val q = toPtrVal(p); storeTy(s, mkPtr(q.base, addC(q.n->off, o)), v.n->agg[i], t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
        }
        return;
    }
    unsigned n = DL->getTypeStoreSize(t); Val x = v;
    if (!x.isPtr() && x.w < n * 8) x = zextTo(*s.f, x, n * 8);
    storeBytes(s, p, x, n);
}

// ------------------------------------------------------------------ function info
struct FnInfo {
    std::unordered_map<const Value*, u32> num; u32 n = 0;
    std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> loopsOf; // headers outermost first
    std::unordered_map<const BasicBlock*, std::vector<u32>> pos;                    // positions, loops then block
    std::unordered_map<const BasicBlock*, std::vector<bool>> live;
};
static std::unordered_map<Function*, FnInfo*> fnInfos;
static FnInfo& info(Function *F) {
    FnInfo *&fi = fnInfos[F]; if (fi) return *fi; fi = new FnInfo();
    for (auto &a : F->args()) fi->num[&a] = fi->n++;
    for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
    DominatorTree DT(*F); LoopInfo LI(DT);
    // scopes: null (function) or loop
    std::function<void(Loop*, std::vector<u32>, std::vector<const BasicBlock*>)> doScope = [&](Loop *L, std::vector<u32> prefix, std::vector<const BasicBlock*> hdrs) {
        // items: blocks directly in L, or child loops represented by header
        auto itemOf = [&](BasicBlock *b) -> BasicBlock* { // representative block of the item in this scope, null if outside
            if (L && !L->contains(b)) return nullptr;
            Loop *x = LI.getLoopFor(b); if (x == L) return b;
            while (x && x->getParentLoop() != L) x = x->getParentLoop();
            return x ? x->getHeader() : nullptr;
        };
        std::map<BasicBlock*, std::set<BasicBlock*>> succ;
        BasicBlock *start = L ? L->getHeader() : &F->getEntryBlock();
        std::vector<BasicBlock*> blocks; if (L) for (auto *b : L->blocks()) blocks.push_back(b); else for (auto &b : *F) blocks.push_back(&b);
        for (auto *b : blocks) { BasicBlock *ib = itemOf(b); if (!ib) continue; succ[ib]; for (auto *t : successors(b)) { BasicBlock *it = itemOf(t); if (!it || it == ib || t == start) continue; succ[ib].insert(it); } }
        std::set<BasicBlock*> seen; std::vector<BasicBlock*> post;
        std::function<void(BasicBlock*)> dfs = [&](BasicBlock *b) { if (!seen.insert(b).second) return; for (auto *t : succ[b]) dfs(t); post.push_back(b); };
        dfs(itemOf(start)); for (auto &e : succ) dfs(e.first);
        std::reverse(post.begin(), post.end());
        for (u32 i = 0; i < post.size(); i++) {
            Loop *x = LI.getLoopFor(post[i]);
            std::vector<u32> p = prefix; p.push_back(i);
            if (x == L) { fi->pos[post[i]] = p; fi->loopsOf[post[i]] = hdrs; }
            else { while (x->getParentLoop() != L) x = x->getParentLoop(); auto h2 = hdrs; h2.push_back(x->getHeader()); doScope(x, p, h2); }
        }
    };
    doScope(nullptr, {}, {});
    // liveness at block entry (after phis)
    std::unordered_map<const BasicBlock*, std::vector<bool>> in; bool ch = true;
    for (auto &b : *F) in[&b].assign(fi->n, false);
    while (ch) {
        ch = false;
        for (auto bi = F->end(); bi != F->begin();) {
            BasicBlock *b = &*--bi; std::vector<bool> l(fi->n, false);
            for (auto *sb : successors(b)) {
                auto &x = in[sb]; for (u32 i = 0; i < fi->n; i++) if (x[i]) l[i] = true;
                for (auto &ph : sb->phis()) l[fi->num[&ph]] = false;
            }
            for (auto *sb : successors(b)) for (auto &ph : sb->phis()) { Value *v = ph.getIncomingValueForBlock(b); auto it = fi->num.find(v); if (it != fi->num.end()) l[it->second] = true; }
            for (auto ii = b->rbegin(); ii != b->rend(); ++ii) {
                Instruction *I = &*ii; if (isa<PHINode>(I)) continue;
                auto it = fi->num.find(I); if (it != fi->num.end()) l[it->second] = false;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                for (auto &op : I->operands()) { auto o = fi->num.find(op.get()); if (o != fi->num.end()) l[o->second] = true; }
            }
            // phi results are live from the entry on if used
            if (l != in[b]) { in[b] = l; ch = true; }
        }
    }
    fi->live = in;
    return *fi;
}

// ------------------------------------------------------------------ merging
static bool logEq(LogNode *a, LogNode *b) {
    while (a != b) {
        if (!a || !b || a->t != b->t || a->v != b->v || a->n != b->n || a->uid != b->uid || a->init != b->init) return false;
        if (!valEq(a->off, b->off) || !valEq(a->len, b->len) || !valEq(a->srcOff, b->srcOff)) return false;
        if (!(a->cells == b->cells)) return false;
        if (!logEq(a->src.p, b->src.p)) return false;
        a = a->prev.p; b = b->prev.p;
    }
    return true;
}
static bool objEq(Obj *a, Obj *b) {
    if (a == b) return true;
    if (a->uid != b->uid || a->dense != b->dense || a->ro != b->ro || a->kind != b->kind || a->cstr != b->cstr || a->fclosed != b->fclosed || !valEq(a->size, b->size)) return false;
    if (a->dense) return a->d == b->d;
    return logEq(a->log.p, b->log.p);
}
static bool memEq(const State&a, const State&b) {
    if (a.mem == b.mem) return true;
    auto i = a.mem->m.begin(), j = b.mem->m.begin();
    if (a.mem->m.size() != b.mem->m.size()) return false;
    for (; i != a.mem->m.end(); ++i, ++j) if (i->first != j->first || !objEq(i->second.p, j->second.p)) return false;
    return true;
}
static bool shapeEq(const State&a, const State&b) { return a.regs == b.regs && a.allocas == b.allocas && a.ioFail == b.ioFail && a.outp == b.outp && memEq(a, b); }
static bool linsEq(const std::vector<Lin>&a, const std::vector<Lin>&b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i].c == b[i].c) || !(a[i].t == b[i].t)) return false; return true; }
static bool factsEq(const Facts&a, const Facts&b) { return a.rg == b.rg && a.sub == b.sub && linsEq(a.eq, b.eq) && linsEq(a.in, b.in); }
static void absorb(State&a, State&b, bool join) { // b into a
    if (join) { sp<Facts> o(new Facts()); joinFacts(*a.f, *b.f, *o); a.f = o; }
    a.nextObj = std::max(a.nextObj, b.nextObj); a.seq = std::max(a.seq, b.seq);
    for (size_t i = 0; i < a.forks.size() && i < b.forks.size(); i++) a.forks[i] = std::max(a.forks[i], b.forks[i]);
    nMerge++;
}
// Disjunctive completion with a bounded number of disjuncts: states of equal shape
// (values, memory) are kept apart while few, and joined beyond the bound.
template <typename It, typename Get> static bool mergeInto(It &v, State&s, size_t lim, Get get) {
    size_t same = 0; State *last = nullptr;
    for (size_t k = v.size(), n = 0; k-- > 0 && n < lim; n++) {
        State *o = get(v[k]); if (!o || !shapeEq(*o, s)) continue;
        if (o->f == s.f || factsEq(*o->f, *s.f)) { absorb(*o, s, false); return true; }
        same++; if (!last) last = o;
    }
    if (same >= optDisj) { absorb(*last, s, true); return true; }
    return false;
}
static void mergeAll(std::vector<State>&v) {
    if (v.size() < 2) return;
    std::vector<State> o;
    for (auto &s : v) if (!mergeInto(o, s, 64, [](State&x) { return &x; })) o.push_back(std::move(s));
    v.swap(o);
}

// ------------------------------------------------------------------ execution
struct Ret { State s; V v; };
static void execFunction(Function *F, const std::vector<V>&args, State s, std::vector<Ret>&out);
static bool model(State&s, CallBase *cb, Function *callee, std::vector<Val>&a, Val&ret);
static int depth = 0;

static Val operand(State&s, FnInfo&fi, Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    auto it = fi.num.find(v); if (it == fi.num.end()) throw Inconclusive{"unknown operand"};
    V id = s.regs[it->second]; if (!id) throw Inconclusive{"use of a value with no abstract state in " + fname(curInst->getFunction())};
    auto c = s.f->vc.find(id); if (c != s.f->vc.end()) return VAL(c->second);
    Val r = simpVal(*s.f, VAL(id)); V rid = intern(r); s.f->vc[id] = rid; return r;
}
static bool hasUndefVal(const Val&v, int d);
static bool symUndef(u32 s, int d) {
    if (d <= 0) return false; SymOp op = T.syms[s].op;
    if (op == S_UNDEF) return true;
    if (op == S_SLICE) return symUndef(T.syms[s].a, d);
    if (op == S_LIN) { for (auto &t : T.syms[s].lin.t) if (symUndef(t.first, d - 1)) return true; return false; }
    if (op == S_PACK || op == S_BOOL) { for (Bit b : T.syms[s].bits) if (b >= 2) for (u32 m : T.anfs[b]) for (u32 a : T.monos[m]) if (symUndef(T.atoms[a].sym, d - 1)) return true; return false; }
    if (op == S_ICMP || op == S_OP || op == S_UDIV) { auto args = T.syms[s].args; for (auto &x : args) if (hasUndefVal(x, d - 1)) return true; }
    return false;
}
static bool hasUndefVal(const Val&v, int d) {
    if (v.k == K_BITS) { for (Bit b : v.n->bits) if (b >= 2) for (u32 m : T.anfs[b]) for (u32 a : T.monos[m]) if (symUndef(T.atoms[a].sym, d)) return true; }
    if (v.k == K_LIN) { for (auto &t : v.n->lin.t) if (symUndef(t.first, d)) return true; }
    return false;
}
static bool undefBit(Bit b) { if (b < 2) return false; for (u32 m : T.anfs[b]) for (u32 a : T.monos[m]) if (symUndef(T.atoms[a].sym, 4)) return true; return false; }

static Bit icmp(State&s, CmpInst::Predicate p, Val a, Val b) {
    if (addrSyms >= 2 && !a.isPtr() && !b.isPtr() && !a.isConst() && !b.isConst() && a.w == 64 && CmpInst::isUnsigned(p)) { Val x = toPtrVal(a), y = toPtrVal(b); if (x.base && y.base) { a = x; b = y; } } // addresses as integers
    if (optAligned && addrSyms && CmpInst::isEquality(p) && a.w == 64 && !a.isPtr() && !b.isPtr() && !(a.isConst() && b.isConst())) { Val x = toPtrVal(a), y = toPtrVal(b); if ((x.base || y.base) && (x.base || a.isConst()) && (y.base || b.isConst())) { a = x; b = y; } }
    if (a.isPtr() || b.isPtr()) {
        a = toPtrVal(a); b = toPtrVal(b);
        if (a.base == b.base) { a = a.n->off; b = b.n->off; }
        else {
            bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
            // distinct objects (or null) have distinct addresses
            bool an = a.base == 0 && a.n->off.isConst(), bn = b.base == 0 && b.n->off.isConst();
            if ((eq || ne) && (an || bn || (a.base && b.base))) return ne ? B1 : B0;
            if (!eq && !ne && (an || bn)) { bool aLess = an && a.n->off.c == 0; bool bLess = bn && b.n->off.c == 0; bool lt;
                if (aLess) lt = true; else if (bLess) lt = false; else throw Inconclusive{"pointer ordering"};
                switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return lt; default: return !lt; } }
            // order of distinct objects: all of one lies below all of the other
            auto within = [&](const Val &v) { if (v.base >= FBASE && v.base < DYN) return false; Obj *ob = getObj(s, v.base); if (!ob) return false; Lin o = toLin(*s.f, v.n->off), z = linAdd(toLin(*s.f, ob->size), o, -1); return implied(*s.f, o) && implied(*s.f, z); };
            if (a.base && b.base && !eq && !ne && within(a) && within(b)) {
                bool sw = a.base > b.base; Val x = toIntVal(mkPtr(sw ? b.base : a.base, mkConst(64, 0))), y = toIntVal(mkPtr(sw ? a.base : b.base, mkConst(64, 0))); Bit lt = ultBit(*s.f, x, y); if (sw) lt = bnot(lt);
                switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return lt; case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return bnot(lt); default: break; }
            }
            a = toIntVal(a); b = toIntVal(b);
        }
    }
    const Facts &f = *s.f;
    switch (p) {
    case CmpInst::ICMP_EQ: return eqBit(f, a, b);
    case CmpInst::ICMP_NE: return bnot(eqBit(f, a, b));
    case CmpInst::ICMP_ULT: return ultBit(f, a, b);
    case CmpInst::ICMP_UGT: return ultBit(f, b, a);
    case CmpInst::ICMP_UGE: return bnot(ultBit(f, a, b));
    case CmpInst::ICMP_ULE: return bnot(ultBit(f, b, a));
    case CmpInst::ICMP_SLT: return sltBit(f, a, b);
    case CmpInst::ICMP_SGT: return sltBit(f, b, a);
    case CmpInst::ICMP_SGE: return bnot(sltBit(f, a, b));
    case CmpInst::ICMP_SLE: return bnot(sltBit(f, b, a));
    default: throw Inconclusive{"comparison predicate"};
    }
}
static NeedFork forkBit(Bit b) { return NeedFork{{Alt{[b](Facts&g) { return assumeBit(g, b, false); }}, Alt{[b](Facts&g) { return assumeBit(g, b, true); }}}}; }
// enumerate the values of v (small range)
static u64 concretize(State&s, const Val&v0, u64 cap, const char *what) {
    Val v = simpS(s, v0); if (v.isConst()) return (u64)v.c;
    if (v.k == K_BITS) {
        auto b = v.n->bits; unsigned un = 0; Bit pick = 0; for (int i = (int)b.size() - 1; i >= 0; i--) if (b[i] > 1) { if (!un) pick = b[i]; un++; }
        i128 lo, hi; range(*s.f, v, lo, hi);
        if (un <= 10 || hi - lo <= (i128)cap) { int d = decideBit(*s.f, pick); if (d >= 0) { Bit q = d ? B1 : B0; (void)q; } throw forkBit(pick); }
    }
    i128 lo, hi; range(*s.f, v, lo, hi); Lin l = toLin(*s.f, v);
    if (hi - lo > (i128)cap) { // tighten by queries
        auto le = [&](i128 k) { return implied(*s.f, linAdd(linConst(k), l, -1)); };
        auto ge = [&](i128 k) { Lin x = l; x.c -= k; return implied(*s.f, x); };
        i128 a = lo, c = hi; while (a < c) { i128 m = a + (c - a) / 2; if (le(m)) c = m; else a = m + 1; } hi = c;
        a = lo; c = hi; while (a < c) { i128 m = c - (c - a) / 2; if (ge(m)) a = m; else c = m - 1; } lo = a;
        if (hi - lo > (i128)cap) throw Inconclusive{std::string("cannot enumerate ") + what};
    }
    NeedFork nf; i128 only = -1; for (i128 k = lo; k <= hi; k++) { Lin e = l; e.c -= k; if (!possible(*s.f, {e}, {})) continue; only = k; Val o = v; nf.alts.push_back({[e, o, k](Facts&g) { if (!addEq(g, e)) return false; Bit q = eqBit(g, simpVal(g, o), mkConst(o.w, (u128)k)); return assumeBit(g, q, true); }}); }
    if (nf.alts.empty()) throw Infeasible();
    if (nf.alts.size() == 1) return (u64)only; // the facts leave one value
    throw nf;
}
static void prove(State&s, Bit b, const char *rule, const std::string&msg) {
    obligation(rule);
    if (proveBit(*s.f, b, 14)) return;
    Bit q = b; decideBit(*s.f, q);
    violate(rule, msg + (q < 2 ? "" : " (not established: " + bitStr(q).substr(0, 160) + ")"));
}
static Val muxVal(State&s, Bit c, const Val&x, const Val&y, bool&ok) {
    ok = true; if (valEq(x, y)) return x;
    if (x.isPtr() || y.isPtr() || x.k == K_LIN || y.k == K_LIN || x.k == K_AGG) { ok = false; return x; }
    auto p = bitsOf(x), q = bitsOf(y); std::vector<Bit> r(p.size());
    if (T.anfs[c].size() > 6) { ok = false; return x; }
    for (size_t i = 0; i < p.size(); i++) r[i] = p[i] == q[i] ? p[i] : bxor(q[i], band(c, bxor(p[i], q[i])));
    return mkBits(r);
}

struct Runner {
    Function *F; FnInfo &fi; std::map<std::vector<u32>, std::vector<State>> work; std::map<std::vector<u32>, BasicBlock*> blockOf;
    std::vector<Ret> &out; u64 total = 0;
    Runner(Function *f, std::vector<Ret>&o) : F(f), fi(info(f)), out(o) {}
    std::vector<u32> key(BasicBlock *b, const State&s) {
        auto &p = fi.pos[b]; std::vector<u32> k; size_t L = p.size() - 1;
        for (size_t i = 0; i < L; i++) { k.push_back(p[i]); k.push_back(s.iters[i]); }
        k.push_back(p[L]); return k;
    }
    void push(State&&s, BasicBlock *from, BasicBlock *to) {
        // phis
        std::vector<std::pair<u32,V>> asg;
        for (auto &ph : to->phis()) { Value *v = ph.getIncomingValueForBlock(from); Val x = operand(s, fi, v); asg.push_back({fi.num[&ph], intern(x)}); }
        auto &lf = fi.loopsOf[from]; auto &lt = fi.loopsOf[to];
        size_t c = 0; while (c < lf.size() && c < lt.size() && lf[c] == lt[c]) c++;
        std::vector<u32> it(lt.size(), 0), fk(lt.size(), 0);
        for (size_t i = 0; i < c; i++) { it[i] = s.iters[i]; fk[i] = s.forks[i]; }
        if (c && lt.size() == c && lt.back() == to && lf.size() >= c) { it[c-1]++;
            if (it[c-1] > optMaxIter || fk[c-1] > optUnroll) throw Inconclusive{"loop at " + locOf(to->getTerminator()) + " is not bounded by the analysis (" + std::to_string(it[c-1]) + " iterations)", true}; }
        s.iters = it; s.forks = fk;
        auto &lv = fi.live[to];
        for (u32 i = 0; i < fi.n; i++) if (!lv[i]) s.regs[i] = 0;
        for (auto &e : asg) s.regs[e.first] = lv[e.first] ? e.second : 0;
        auto k = key(to, s); auto &w = work[k]; blockOf[k] = to;
        if (mergeInto(w, s, 32, [](State&x) { return &x; })) return;
        w.push_back(std::move(s)); nPart++;
        if (++total > optStates) throw Inconclusive{"too many partitions in " + fname(F), true};
    }
    void run(State s) {
        BasicBlock *e = &F->getEntryBlock(); s.iters.clear(); s.forks.clear();
        auto k = key(e, s); work[k].push_back(std::move(s)); blockOf[k] = e;
        while (!work.empty()) {
            auto it = work.begin(); BasicBlock *b = blockOf[it->first]; std::vector<State> g = std::move(it->second); blockOf.erase(it->first); work.erase(it);
            mergeAll(g);
            for (auto &st : g) runBlock(std::move(st), b);
        }
        // merge returns
        std::vector<Ret> m;
        for (auto &r : out) { V rv = r.v; if (!mergeInto(m, r.s, 64, [rv](Ret&x) { return x.v == rv ? &x.s : nullptr; })) m.push_back(std::move(r)); }
        out.swap(m);
    }
    struct Item { State s; BasicBlock::iterator it; };
    void runBlock(State s0, BasicBlock *b) {
        std::vector<Item> stack; stack.push_back({std::move(s0), b->getFirstNonPHIOrDbg()->getIterator()});
        while (!stack.empty()) {
            Item x = std::move(stack.back()); stack.pop_back(); State &s = x.s; auto it = x.it;
            for (;;) {
                Instruction *I = &*it; curInst = I;
                if (isa<DbgInfoIntrinsic>(I)) { ++it; continue; }
                if (++nInst > instBudget) throw Inconclusive{"instruction budget exhausted", true};
                try {
                    if (I->isTerminator() && !isa<InvokeInst>(I)) { terminator(s, I, b, stack, it); break; }
                    if (auto *cb = dyn_cast<CallBase>(I)) {
                        if (!call(s, cb, it, stack)) break;
                        if (isa<InvokeInst>(I)) { push(std::move(s), b, cast<InvokeInst>(I)->getNormalDest()); break; }
                        ++it; continue;
                    }
                    Val v = simple(s, I);
                    if (!v.none()) s.regs[fi.num[I]] = intern(v);
                    ++it;
                } catch (NeedFork &nf) {
                    bumpForks(s);
                    for (auto ai = nf.alts.rbegin(); ai != nf.alts.rend(); ++ai) {
                        State t = s; std::vector<sp<Facts>> done; applyAlt(t.f, *ai, done);
                        for (auto &f : done) { State u = t; u.f = f; stack.push_back({std::move(u), it}); }
                    }
                    if (stack.size() > 30000) throw Inconclusive{"too many partitions inside a block of " + fname(F)};
                    break;
                } catch (Killed&) { break; } catch (Infeasible&) { break; }
            }
        }
    }
    // apply an alternative; nested splits are resolved recursively
    static void applyAlt(const sp<Facts>&f, const Alt&a, std::vector<sp<Facts>>&done, int d = 0) {
        if (d > 12) throw Inconclusive{"nested case split"};
        sp<Facts> g(new Facts(*f));
        try { if (a.apply(*g)) done.push_back(g); }
        catch (Infeasible&) {}
        catch (NeedFork &nf) { for (auto &x : nf.alts) { std::vector<sp<Facts>> d2; applyAlt(f, x, d2, d + 1); for (auto &h : d2) applyAlt(h, a, done, d + 1); } }
    }
    void bumpForks(State&s) { for (auto &f : s.forks) f++; }
    void terminator(State&s, Instruction *I, BasicBlock *b, std::vector<Item>&stack, BasicBlock::iterator it) {
        if (auto *r = dyn_cast<ReturnInst>(I)) {
            V v = 0; if (r->getReturnValue()) v = intern(operand(s, fi, r->getReturnValue()));
            for (u32 a : s.allocas) s.mm().m.erase(a);
            s.allocas.clear(); std::fill(s.regs.begin(), s.regs.end(), 0);
            s.iters.clear(); s.forks.clear();
            if (mergeInto(out, s, 16, [v](Ret&x) { return x.v == v ? &x.s : nullptr; })) return;
            out.push_back({std::move(s), v}); return;
        }
        if (auto *br = dyn_cast<BranchInst>(I)) {
            if (br->isUnconditional()) { push(std::move(s), b, br->getSuccessor(0)); return; }
            Val c = operand(s, fi, br->getCondition()); Bit q = bitsOf(c)[0]; int d = decideBit(*s.f, q);
            if (d >= 0) { push(std::move(s), b, br->getSuccessor(d ? 0 : 1)); return; }
            obligation("no-undef-branch"); if (!optNoUndef && undefBit(q)) violate("uninitialised-branch", "control flow depends on an uninitialised value");
            sp<Facts> f1(new Facts(*s.f)), f0(new Facts(*s.f));
            bool a1 = true, a0 = true;
            try { a1 = assumeBit(*f1, q, true); } catch (Infeasible&) { a1 = false; }
            try { a0 = assumeBit(*f0, q, false); } catch (Infeasible&) { a0 = false; }
            if (a1 && a0) bumpForks(s);
            State t = s; t.f = f1; s.f = f0;
            if (a1) push(std::move(t), b, br->getSuccessor(0));
            if (a0) push(std::move(s), b, br->getSuccessor(1));
            return;
        }
        if (auto *sw = dyn_cast<SwitchInst>(I)) {
            Val c = operand(s, fi, sw->getCondition());
            if (c.isConst()) { BasicBlock *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) if (apTo(cs.getCaseValue()->getValue()) == c.c) { d = cs.getCaseSuccessor(); break; } push(std::move(s), b, d); return; }
            if (!optNoUndef && hasUndefVal(c, 4)) violate("uninitialised-branch", "switch on an uninitialised value");
            bumpForks(s);
            State rest = s; bool alive = true;
            std::vector<std::pair<State,BasicBlock*>> outs;
            for (auto &cs : sw->cases()) {
                Bit q = eqBit(*rest.f, simpVal(*rest.f, c), mkConst(c.w, apTo(cs.getCaseValue()->getValue()))); int d = decideBit(*rest.f, q);
                if (d == 0) continue;
                State t = rest; t.f = sp<Facts>(new Facts(*rest.f)); bool ok = true; try { ok = assumeBit(*t.f, q, true); } catch (Infeasible&) { ok = false; }
                if (ok) outs.push_back({std::move(t), cs.getCaseSuccessor()});
                if (d == 1) { alive = false; break; }
                rest.f = sp<Facts>(new Facts(*rest.f)); try { if (!assumeBit(*rest.f, q, false)) { alive = false; break; } } catch (Infeasible&) { alive = false; break; }
            }
            for (auto &o : outs) push(std::move(o.first), b, o.second);
            if (alive) push(std::move(rest), b, sw->getDefaultDest());
            return;
        }
        if (isa<UnreachableInst>(I)) { obligation("no-unreachable"); violate("unreachable-reached", "control reaches code marked unreachable (missing return value or failed noreturn call)"); }
        if (isa<ResumeInst>(I)) { violate("exception", "exception propagates"); }
        throw Inconclusive{std::string("terminator ") + I->getOpcodeName()};
    }
    bool call(State&s, CallBase *cb, BasicBlock::iterator it, std::vector<Item>&stack) {
        Value *cv = cb->getCalledOperand(); Function *callee = dyn_cast<Function>(cv->stripPointerCasts());
        if (!callee) {
            if (isa<InlineAsm>(cv)) throw Inconclusive{"inline assembly"};
            Val p = toPtrVal(operand(s, fi, cv));
            if (p.base < FBASE || p.base >= DYN) violate("invalid-call", "call through an invalid function pointer");
            callee = fns[p.base - FBASE];
        }
        std::vector<Val> a;
        if (auto *ii = dyn_cast<IntrinsicInst>(cb)) if (ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) return true;
        for (auto &x : cb->args()) a.push_back(x->getType()->isMetadataTy() ? Val() : operand(s, fi, x.get()));
        auto st = stubMap.find(callee); if (st != stubMap.end()) callee = st->second;
        Val ret;
        if (callee->isDeclaration() || callee->getName().starts_with("cx_") || callee->getName() == "_Z6printfPKcz") {
            State t = s;
            if (callee->getName().starts_with("cx_drv__") || !model(t, cb, callee, a, ret)) {
                if (callee->isDeclaration()) throw Inconclusive{"call to unmodelled external function " + callee->getName().str()};
            } else {
                s = std::move(t);
                if (!cb->getType()->isVoidTy()) { if (ret.none()) throw Inconclusive{"no result from " + callee->getName().str()}; s.regs[fi.num[cb]] = intern(ret); }
                return true;
            }
        }
        if (depth > 1000) throw Inconclusive{"call depth exceeded at " + fname(callee), true};
        std::vector<V> av;
        for (unsigned i = 0; i < a.size(); i++) {
            if (i < callee->arg_size() && cb->isByValArgument(i)) {
                // by-value copy
                Type *bt = cb->getParamByValType(i); u64 n = DL->getTypeAllocSize(bt);
                u32 id = DYN + s.nextObj++; s.mm().m[id] = newObj(mkConst(64, n), OK_STACK, 0, "byval", id); s.allocas.push_back(id);
                Val np = mkPtr(id, mkConst(64, 0)); copyBytes(s, np, a[i], mkConst(64, n), false); av.push_back(intern(np));
            } else av.push_back(intern(a[i]));
        }
        std::vector<Ret> rets; callStack.push_back(cb); depth++;
        State cs; cs.f = s.f; cs.mem = s.mem; cs.nextObj = s.nextObj; cs.seq = s.seq; cs.ioFail = s.ioFail; cs.outp = s.outp;
        std::vector<V> keepRegs = s.regs; std::vector<u32> keepAl = s.allocas, ki = s.iters, kf = s.forks;
        s.mem = sp<MemMap>(); 
        try { execFunction(callee, av, std::move(cs), rets); } catch (...) { callStack.pop_back(); depth--; throw; }
        callStack.pop_back(); depth--; curInst = cb;
        bool first = true; 
        if (rets.size() > 1) for (auto &f : kf) f++;
        for (size_t i = rets.size(); i-- > 0;) {
            State t; auto &r = rets[i]; t.f = r.s.f; t.mem = r.s.mem; t.nextObj = r.s.nextObj; t.seq = r.s.seq; t.ioFail = r.s.ioFail; t.outp = r.s.outp;
            t.regs = keepRegs; t.allocas = keepAl; t.iters = ki; t.forks = kf;
            if (!cb->getType()->isVoidTy()) t.regs[fi.num[cb]] = r.v;
            if (i == 0) { s = std::move(t); return true; }
            if (isa<InvokeInst>(cb)) push(std::move(t), cb->getParent(), cast<InvokeInst>(cb)->getNormalDest());
            else { auto nx = it; ++nx; stack.push_back({std::move(t), nx}); }
        }
        (void)first; return false;
    }
    Val simple(State&s, Instruction *I) {
        const Facts &f = *s.f;
        auto op = [&](unsigned i) { return operand(s, fi, I->getOperand(i)); };
        switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(I); Val n = op(0); u64 es = DL->getTypeAllocSize(ai->getAllocatedType());
            Val sz = arith(f, '*', n.w == 64 ? n : zextTo(f, n, 64), mkConst(64, es));
            std::string nm = ai->getName().str(); u32 id = DYN + s.nextObj++;
            if (nm.empty()) nm = "local of " + fname(F);
            s.mm().m[id] = newObj(sz, OK_STACK, 0, nm, id); s.allocas.push_back(id);
            return mkPtr(id, mkConst(64, 0));
        }
        case Instruction::Load: return loadTy(s, op(0), I->getType());
        case Instruction::Store: { Val v = op(0), p = op(1); storeTy(s, p, v, I->getOperand(0)->getType()); return Val(); }
        case Instruction::GetElementPtr: {
            auto *g = cast<GetElementPtrInst>(I); Val p = toPtrVal(op(0)); Val off = p.n->off; unsigned k = 1;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
                if (StructType *st = gi.getStructTypeOrNull()) { off = addC(off, DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue())); continue; }
                Val ix = op(k); if (ix.isPtr()) ix = toIntVal(ix); u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                if (ix.w < 64) ix = sextTo(f, ix, 64);
                off = arith(f, '+', off, arith(f, '*', ix, mkConst(64, sz)));
            }
            return mkPtr(p.base, off);
        }
        case Instruction::Add: return arith(f, '+', op(0), op(1));
        case Instruction::Sub: {
            Val a = op(0), b = op(1); return arith(f, '-', a, b); }
        case Instruction::Mul: return arith(f, '*', op(0), op(1));
        case Instruction::And: return arith(f, '&', op(0), op(1));
        case Instruction::Or: return arith(f, '|', op(0), op(1));
        case Instruction::Xor: return arith(f, '^', op(0), op(1));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            Val a = op(0), b = op(1);
            if (!b.isConst() || b.c == 0) prove(s, bnot(eqBit(f, b, mkConst(b.w, 0))), "division-by-zero", "divisor may be zero");
            int c = I->getOpcode() == Instruction::UDiv ? '/' : I->getOpcode() == Instruction::URem ? '%' : I->getOpcode() == Instruction::SDiv ? 's' : 'r';
            return arith(f, c, a, b);
        }
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Val a = op(0), b = op(1); char o = I->getOpcode() == Instruction::Shl ? '<' : I->getOpcode() == Instruction::LShr ? '>' : 'a';
            prove(s, ultBit(f, b, mkConst(b.w, a.w)), "shift-amount", "shift by an amount not below the operand width " + std::to_string(a.w));
            if (!b.isConst()) {
                if (a.isConst() && a.c == 0) return a;
                u64 k = concretize(s, b, 130, "a shift amount"); return shiftc(f, o, a, k);
            }
            return shiftc(f, o, a, (unsigned)b.c);
        }
        case Instruction::ICmp: return mkBits({icmp(s, cast<ICmpInst>(I)->getPredicate(), op(0), op(1))});
        case Instruction::Trunc: { Val a = op(0); return truncTo(a, I->getType()->getIntegerBitWidth()); }
        case Instruction::ZExt: return zextTo(f, op(0), I->getType()->getIntegerBitWidth());
        case Instruction::SExt: return sextTo(f, op(0), I->getType()->getIntegerBitWidth());
        case Instruction::PtrToInt: { Val a = toIntVal(op(0)); unsigned w = I->getType()->getIntegerBitWidth(); return w < 64 ? truncTo(a, w) : a; }
        case Instruction::IntToPtr: return toPtrVal(op(0));
        case Instruction::BitCast: return op(0);
        case Instruction::Freeze: return op(0);
        case Instruction::FNeg: { Val a = op(0); return arith(f, '^', a, mkConst(a.w, (u128)1 << (a.w - 1))); }
        case Instruction::FCmp: {
            Val a = op(0), b = op(1); auto p = cast<FCmpInst>(I)->getPredicate(); unsigned w = a.w, mw = w == 64 ? 52 : 23;
            auto isNan = [&](const Val&x) { Bit e = eqBit(f, extractBits(x, mw, w - 1 - mw), mkConst(w - 1 - mw, maskw(w - 1 - mw))); Bit z = eqBit(f, extractBits(x, 0, mw), mkConst(mw, 0)); return band(e, bnot(z)); };
            Bit un = bor(isNan(a), isNan(b)); Bit zz = band(eqBit(f, extractBits(a, 0, w - 1), mkConst(w - 1, 0)), eqBit(f, extractBits(b, 0, w - 1), mkConst(w - 1, 0)));
            Bit eq = bor(zz, eqBit(f, a, b));
            Bit am = extractBits(a, w - 1, 1).isConst() ? (Bit)extractBits(a, w - 1, 1).c : bitsOf(a)[w - 1], bm = bitsOf(b)[w - 1];
            auto mag = [&](const Val&x) { return extractBits(x, 0, w - 1); };
            Bit ltmag = ultBit(f, mag(a), mag(b)), gtmag = ultBit(f, mag(b), mag(a));
            Bit lt = band(bnot(zz), bor(band(am, bnot(bm)), bor(band(bnot(am), band(bnot(bm), ltmag)), band(am, band(bm, gtmag)))));
            Bit r;
            switch (p) {
            case CmpInst::FCMP_OEQ: r = band(bnot(un), eq); break; case CmpInst::FCMP_UEQ: r = bor(un, eq); break;
            case CmpInst::FCMP_ONE: r = band(bnot(un), bnot(eq)); break; case CmpInst::FCMP_UNE: r = bor(un, bnot(eq)); break;
            case CmpInst::FCMP_ORD: r = bnot(un); break; case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_OLT: r = band(bnot(un), lt); break; case CmpInst::FCMP_ULT: r = bor(un, lt); break;
            case CmpInst::FCMP_OGE: r = band(bnot(un), bnot(lt)); break; case CmpInst::FCMP_UGE: r = bor(un, bnot(lt)); break;
            case CmpInst::FCMP_OGT: r = band(bnot(un), band(bnot(lt), bnot(eq))); break; case CmpInst::FCMP_UGT: r = bor(un, band(bnot(lt), bnot(eq))); break;
            case CmpInst::FCMP_OLE: r = band(bnot(un), bor(lt, eq)); break; case CmpInst::FCMP_ULE: r = bor(un, bor(lt, eq)); break;
            default: throw Inconclusive{"floating comparison"};
            }
            return mkBits({r});
        }
        case Instruction::Select: {
            Val c = op(0), x = op(1), y = op(2); Bit q = bitsOf(c)[0]; int d = decideBit(f, q);
            if (d >= 0) return d ? x : y;
            bool ok; Val r = muxVal(s, q, x, y, ok); if (ok) return r;
            throw forkBit(q);
        }
        case Instruction::ExtractValue: { Val a = op(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = a.n->agg[i]; a = t; } return a; }
        case Instruction::InsertValue: {
            Val a = op(0), v = op(1); auto ix = cast<InsertValueInst>(I)->getIndices();
            std::function<Val(const Val&, size_t)> ins = [&](const Val&x, size_t k) -> Val { if (k == ix.size()) return v; std::vector<Val> e = x.n->agg; e[ix[k]] = ins(e[ix[k]], k + 1); return mkAgg(e); };
            return ins(a, 0);
        }
        case Instruction::LandingPad: throw Killed();
        default: throw Inconclusive{std::string("instruction ") + I->getOpcodeName()};
        }
    }
};
static void execFunction(Function *F, const std::vector<V>&args, State s, std::vector<Ret>&out) {
    if (F->isDeclaration()) throw Inconclusive{"no body for " + F->getName().str()};
    fnsSeen.insert(F);
    FnInfo &fi = info(F); s.regs.assign(fi.n, 0); s.allocas.clear();
    u32 i = 0; for (auto &a : F->args()) { if (i < args.size()) s.regs[fi.num[&a]] = args[i]; i++; }
    std::vector<V> va; if (F->isVarArg()) va.assign(args.begin() + F->arg_size(), args.end());
    extern void cxPushVa(const std::vector<V>&, bool); extern void cxPopVa();
    cxPushVa(va, F->isVarArg());
    try { Runner r(F, out); r.run(std::move(s)); } catch (...) { cxPopVa(); throw; }
    cxPopVa();
}
#include "models.inc"
#include "main.inc"
