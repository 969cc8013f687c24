// Library and analyser intrinsics.
static std::vector<std::vector<V>> vaStack; static std::vector<std::vector<V>> vaTab; static std::map<std::vector<V>,u32> vaIdx;
void cxPushVa(const std::vector<V>&v, bool) { vaStack.push_back(v); }
void cxPopVa() { vaStack.pop_back(); }
static u64 runUnroll = 48, runIter = 20000; static u64 flagMallocFail = 0, flagCapture = 0, flagIoFail = 1;

static Val freshKeyed(int code, unsigned w, const std::vector<Val>&k, const char *name) { u32 s = opSym(S_HAVOC, 0, w, [&]{ std::vector<Val> x = k; x.insert(x.begin(), mkConst(32, code)); return x; }()); T.syms[s].name = name; return symVal(s); }
static u32 symIdOf(const Val&v) { u32 at; bool n; asAtom(v.n->bits[0], at, n); return T.atoms[at].sym; }
static Val fresh(State&s, unsigned w, const char *name) { return freshKeyed(1, w, {mkConst(64, s.seq++)}, name); }
static Val alloc(State&s, const Val&size, u8 init, ObjKind k, const std::string&name) {
    u32 id = DYN + s.nextObj++; s.mm().m[id] = newObj(simpS(s, size), k, init, name, id); return mkPtr(id, mkConst(64, 0));
}
static u64 constArg(State&s, const Val&v, const char *what) { Val x = simpS(s, v); if (!x.isConst()) throw Inconclusive{std::string(what) + " must be constant"}; return (u64)x.c; }
// decide-or-fork
static bool choose(State&s, Bit b) { int d = decideBit(*s.f, b); if (d >= 0) return d; throw forkBit(b); }
static Val byteAt(State&s, const Val&p, const Val&off) { Val q = toPtrVal(p); return loadBytes(s, mkPtr(q.base, arith(*s.f, '+', q.n->off, off)), 1); }
static Val modelStrlen(State&s, const Val&p0) {
    Val p = toPtrVal(simpS(s, p0)); Obj *o = access(s, p, mkConst(64, 0), false, "string read");
    if (o->cstr) { // symbolic length string
        Val l = VAL(o->cstr); Lin room = linAdd(toLin(*s.f, l), toLin(*s.f, p.n->off), -1);
        if (implied(*s.f, room)) return arith(*s.f, '-', l, p.n->off);
    }
    for (u64 i = 0; i < 300000; i++) { Val c = byteAt(s, p, mkConst(64, i)); if (choose(s, eqBit(*s.f, c.isPtr() ? toIntVal(c) : c, mkConst(8, 0)))) return mkConst(64, i); }
    throw Inconclusive{"unbounded string"};
}
static std::string constStr0(State&s, const Val&p);
static std::string constStr(State&s, const Val&p) {
    if (p.isPtr() && p.base && p.base <= gvars.size() && gvars[p.base - 1]->isConstant() && p.n->off.isConst()) {
        static std::map<std::pair<u32,u64>,std::string> memo; auto k = std::make_pair(p.base, (u64)p.n->off.c); auto it = memo.find(k);
        return it != memo.end() ? it->second : memo[k] = constStr0(s, p);
    }
    return constStr0(s, p);
}
static std::string constStr0(State&s, const Val&p) {
    std::string r; for (u64 i = 0; i < 4096; i++) { Val c = byteAt(s, p, mkConst(64, i)); if (!c.isConst()) throw Inconclusive{"format string is not constant"}; if (!c.c) return r; r += (char)c.c; }
    throw Inconclusive{"long format string"};
}
struct Text { bool exact = true; std::vector<Val> b; u64 lo = 0, hi = 0; bool str = false; Val sp, slen; std::string spec; };
static bool knownStr(State&s, const Val&p0, std::vector<Val>&out, i64 maxn) {
    Val p = toPtrVal(p0); Obj *o = access(s, p, mkConst(64, maxn == 0 ? 0 : 1), false, "string argument"); if (o->cstr) return false;
    for (u64 i = 0; i < 300000; i++) { if (maxn >= 0 && (i64)i >= maxn) return true; Val c = byteAt(s, p, mkConst(64, i)); if (choose(s, eqBit(*s.f, c, mkConst(8, 0)))) return true; out.push_back(c); }
    throw Inconclusive{"unbounded string argument"};
}
static Text format(State&s, const Val&fmt, const std::vector<Val>&args) {
    Text t; std::string f = constStr(s, fmt); size_t ai = 0; std::vector<std::pair<bool,int>> dummy;
    auto lit = [&](char c) { t.b.push_back(mkConst(8, (u8)c)); t.lo++; t.hi++; };
    int pieces = 0; 
    for (size_t i = 0; i < f.size();) {
        if (f[i] != '%') { lit(f[i++]); pieces++; continue; }
        if (f[i + 1] == '%') { lit('%'); i += 2; pieces++; continue; }
        size_t j = i + 1; std::string spec = "%"; bool unk = false; i64 prec = -1, width = 0; bool inprec = false; u64 wmin = 0;
        while (j < f.size() && strchr("-+ #0123456789.*'", f[j])) {
            if (f[j] == '*') { if (ai >= args.size()) violate("format-args", "too few arguments for the format"); Val v = simpS(s, args[ai++]); if (!v.isConst()) unk = true; else { int x = (int)(u32)v.c; spec += std::to_string(x); if (inprec) prec = x; else width = x; } j++; continue; }
            if (f[j] == '.') { inprec = true; prec = 0; }
            else if (isdigit(f[j])) { if (inprec) prec = prec * 10 + (f[j] - '0'); else width = width * 10 + (f[j] - '0'); }
            spec += f[j++];
        }
        std::string lm; while (j < f.size() && strchr("hlLqjzt", f[j])) lm += f[j++];
        char c = f[j++]; i = j; pieces++;
        if (ai >= args.size()) violate("format-args", "too few arguments for the format");
        Val a = args[ai++]; unsigned w = (lm == "l" || lm == "ll" || lm == "z" || lm == "j" || lm == "t" || lm == "q") ? 64 : 32;
        wmin = width < 0 ? -width : width;
        if (c == 's') {
            std::vector<Val> str; Val p = toPtrVal(a);
            if (p.base == 0) violate("format-args", "null string argument");
            if (!unk && knownStr(s, p, str, prec)) {
                std::vector<Val> pad; if (wmin > str.size()) pad.assign(wmin - str.size(), mkConst(8, ' '));
                bool left = spec.find('-') != std::string::npos || width < 0;
                if (!left) for (auto &x : pad) t.b.push_back(x); for (auto &x : str) t.b.push_back(x); if (left) for (auto &x : pad) t.b.push_back(x);
                t.lo += str.size() + pad.size(); t.hi += str.size() + pad.size(); continue;
            }
            t.exact = false; t.str = true; t.sp = p; t.slen = modelStrlen(s, p); t.lo += wmin; t.hi += 1ull << 30; continue;
        }
        if (c == 'p') { t.exact = false; t.lo += std::max<u64>(3, wmin); t.hi += std::max<u64>(20, wmin); continue; }
        if (c == 'c') { if (a.w > 8) a = truncTo(a, 8); t.b.push_back(a); t.lo++; t.hi++; continue; }
        if (strchr("diuxXo", c)) {
            if (a.isPtr()) throw Inconclusive{"pointer formatted as integer"};
            unsigned have = a.w; if (have < w) { obligation("format-arg-width"); violate("format-args", "argument narrower than the conversion"); }
            Val x = truncTo(a, w);
            if (x.isConst() && !unk) {
                char buf[600]; std::string sp2 = spec + (w == 64 ? "ll" : lm == "hh" ? "hh" : lm == "h" ? "h" : "") + c;
                int n = w == 64 ? snprintf(buf, sizeof buf, sp2.c_str(), (unsigned long long)x.c) : snprintf(buf, sizeof buf, sp2.c_str(), (unsigned)x.c);
                for (int q = 0; q < n; q++) lit(buf[q]); continue;
            }
            if (optDigits && !unk && spec == "%" && strchr("diu", c)) {
                // exact decimal digits: one case per digit count, digits are fresh symbols tied to the value by a linear equation
                i128 rl, rh; range(*s.f, x, rl, rh); if (c != 'u' && rh >= ((i128)1 << (w - 1))) { if (!choose(s, ultBit(*s.f, x, mkConst(w, (u128)1 << (w - 1))))) throw Inconclusive{"negative number in exact text"}; }
                unsigned nd = 1; u128 pw = 10; while (nd < 20 && !choose(s, ultBit(*s.f, x, mkConst(w, pw)))) { nd++; pw *= 10; if (w < 64 && (pw >> w)) break; }
                if (nd > 1 && nd < 20 && !implied(*s.f, linAdd(linConst((i128)pw - 1), toLin(*s.f, x), -1))) throw Inconclusive{"digit count of a formatted number"};
                Lin sum = linConst(0); i128 m = 1; std::vector<Val> ds;
                for (unsigned q = 0; q < nd; q++, m *= 10) {
                    u32 id = opSym(S_INPUT, (int)s.seq++, 4, {}); T.syms[id].name = "digit"; sum = linAdd(sum, linSym(id), m);
                    if (!addIn(s.mf(), linAdd(linConst(9), linSym(id), -1))) throw Infeasible();
                    if (nd > 1 && q + 1 == nd && !addIn(s.mf(), linAdd(linSym(id), linConst(1), -1))) throw Infeasible();
                    auto b = bitsOf(symVal(id)); b.resize(8, B0); b[4] = b[5] = B1; ds.push_back(mkBits(b));
                }
                if (!addEq(s.mf(), linAdd(sum, toLin(*s.f, x), -1))) throw Infeasible();
                for (unsigned q = nd; q-- > 0;) t.b.push_back(ds[q]);
                t.lo += nd; t.hi += nd; continue;
            }
            t.exact = false; u64 mx = c == 'x' || c == 'X' ? w / 4 + 2 : c == 'o' ? w / 3 + 2 : w == 64 ? 20 : (c == 'u' ? 10 : 11);
            i128 lo, hi; range(*s.f, x, lo, hi); if (c == 'u' || ((c == 'd' || c == 'i') && hi < ((i128)1 << (w - 1)))) { u64 n = 1; i128 v = hi; while (v >= 10) { v /= 10; n++; } mx = n; }
            if ((c == 'x' || c == 'X') && spec.find('#') == std::string::npos) { u64 n = 1; i128 v = hi; while (v >= 16) { v /= 16; n++; } mx = n; }
            if (unk) mx += 1 << 20;
            t.lo += std::max<u64>(1, wmin); t.hi += std::max<u64>({mx, wmin, (u64)(prec > 0 ? prec : 0)}); continue;
        }
        if (strchr("feEgGaA", c)) { t.exact = false; t.lo += 1; t.hi += 400; continue; }
        throw Inconclusive{std::string("format conversion %") + c};
    }
    if (t.str && pieces != 1) t.str = false;
    return t;
}
static u32 lastText;
static Val doFormat(State&s, const Val&buf, const Val&size, const Val&fmt, const std::vector<Val>&args) {
    Text t = format(s, fmt, args); Val sz = simpS(s, size); Val p = toPtrVal(buf);
    if (t.exact) {
        u64 n = t.b.size(); Val text = alloc(s, mkConst(64, n + 1), 0, OK_DRV, "formatted text");
        { Obj *o = getMutObj(s, text.base); for (u64 i = 0; i < n; i++) putCells(o->d, i, t.b[i], 1); putCells(o->d, n, mkConst(8, 0), 1); o->leakOk = true; }
        s.stdoutObj = text.base;
        if (choose(s, eqBit(*s.f, sz, mkConst(64, 0)))) return mkConst(32, n);
        if (choose(s, ultBit(*s.f, mkConst(64, n), sz))) copyBytes(s, p, text, mkConst(64, n + 1), false);
        else { Val m = addC(sz, -1); copyBytes(s, p, text, m, false); storeBytes(s, mkPtr(p.base, arith(*s.f, '+', p.n->off, m)), mkConst(8, 0), 1); }
        return mkConst(32, n);
    }
    Val L, text;
    if (t.str) { L = t.slen; text = t.sp; }
    else {
        Val k = mkConst(64, s.seq++);
        L = freshKeyed(7, 64, {k}, "textlen"); u32 id = symIdOf(L); T.syms[id].hasHi = true; T.syms[id].hiBound = t.hi;
        if (!addIn(s.mf(), linAdd(linSym(id), linConst(t.lo), -1))) throw Infeasible();
        text = alloc(s, addC(L, 1), 2, OK_DRV, "formatted text"); Obj *o = getMutObj(s, text.base); o->leakOk = true; o->cstr = intern(L);
    }
    s.stdoutObj = text.base;
    if (choose(s, eqBit(*s.f, sz, mkConst(64, 0)))) return truncTo(L, 32);
    if (choose(s, ultBit(*s.f, L, sz))) { copyBytes(s, p, text, L, false); storeBytes(s, mkPtr(p.base, arith(*s.f, '+', p.n->off, L)), mkConst(8, 0), 1); }
    else { Val m = addC(sz, -1); copyBytes(s, p, text, m, false); storeBytes(s, mkPtr(p.base, arith(*s.f, '+', p.n->off, m)), mkConst(8, 0), 1); }
    return truncTo(L, 32);
}
static void emitOut(State&s, const Val&fmt, const std::vector<Val>&args) {
    Text t = format(s, fmt, args);
    if (!flagCapture) return;
    if (t.exact) for (auto &b : t.b) s.outp.push_back(intern(b)); else s.outp.push_back(intern(mkConst(16, 0xffff)));
}
static std::vector<Val> vaArgs(State&s, const Val&list) {
    Val id = simpS(s, loadBytes(s, list, 8)); if (!id.isConst() || (u64)id.c >= vaTab.size() + 1 || !id.c) violate("invalid-va-list", "use of an uninitialised va_list");
    std::vector<Val> r; for (V v : vaTab[(u64)id.c - 1]) r.push_back(simpS(s, VAL(v))); return r;
}
static Val i32v(State&s, Bit b) { (void)s; std::vector<Bit> x(32, B0); x[0] = b; return mkBits(x); }
static void fileArg(State&s, const Val&p0, const char *fn) {
    Val p = toPtrVal(p0); obligation("file-handle-open");
    if (p.base && p.base <= gvars.size()) return; // stdout / stderr
    Obj *o = p.base >= DYN ? s.obj(p.base) : nullptr;
    if (!o || o->kind != OK_FILE) violate("invalid-file-handle", std::string(fn) + " on a stream that is null or already closed");
}
static bool isErr(const Val&v) { Val p = toPtrVal(v); return p.base && p.base <= gvars.size() && gvars[p.base - 1]->getName() == "stderr"; }
static Bit neBit(State&s, const Val&a, const Val&b) { return bnot(eqBit(*s.f, a, b)); }
static void bor_into(Bit&d, Bit b) { d = bor(d, b); }

static bool model(State&s, CallBase *cb, Function *callee, std::vector<Val>&a, Val&ret) {
    std::string n = callee->getName().str();
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: copyBytes(s, a[0], a[1], a[2], ii->getIntrinsicID() == Intrinsic::memmove || true); return true;
        case Intrinsic::memset: setBytes(s, a[0], a[1], a[2]); return true;
        case Intrinsic::vastart: {
            auto &v = vaStack.back(); auto it = vaIdx.find(v); u32 id; if (it == vaIdx.end()) { vaTab.push_back(v); id = vaIdx[v] = vaTab.size(); } else id = it->second;
            storeBytes(s, a[0], mkConst(64, id), 8); return true; }
        case Intrinsic::vaend: return true;
        case Intrinsic::vacopy: copyBytes(s, a[0], a[1], mkConst(64, 24), true); return true;
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            Val x = a[0]; unsigned w = x.w; bool lz = ii->getIntrinsicID() == Intrinsic::ctlz; bool zp = a[1].isConst() && a[1].c;
            auto b = bitsOf(x);
            for (unsigned i = 0; i < w; i++) { Bit q = b[lz ? w - 1 - i : i]; if (choose(s, q)) { ret = mkConst(w, i); return true; } }
            obligation("bit-scan-nonzero"); if (zp) violate("bit-scan-of-zero", "leading/trailing zero count of a zero operand is undefined");
            ret = mkConst(w, w); return true; }
        case Intrinsic::ctpop: { auto b = bitsOf(a[0]); Val r = mkConst(a[0].w, 0); for (Bit q : b) { std::vector<Bit> x(a[0].w, B0); x[0] = q; r = arith(*s.f, '+', r, mkBits(x)); } ret = r; return true; }
        case Intrinsic::bswap: { auto b = bitsOf(a[0]); std::vector<Bit> r(b.size()); unsigned nb = b.size() / 8; for (unsigned i = 0; i < nb; i++) for (unsigned j = 0; j < 8; j++) r[i * 8 + j] = b[(nb - 1 - i) * 8 + j]; ret = mkBits(r); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned w = a[0].w; Val k = arith(*s.f, '%', a[2], mkConst(w, w)); u64 q = concretize(s, k, 130, "rotate amount");
            if (ii->getIntrinsicID() == Intrinsic::fshr) { if (!q) { ret = a[1]; return true; } q = w - q; }
            if (!q) { ret = a[0]; return true; }
            ret = arith(*s.f, '|', shiftc(*s.f, '<', a[0], q), shiftc(*s.f, '>', a[1], w - q)); return true; }
        case Intrinsic::umin: case Intrinsic::umax: { bool lt = choose(s, ultBit(*s.f, a[0], a[1])); ret = (lt == (ii->getIntrinsicID() == Intrinsic::umin)) ? a[0] : a[1]; return true; }
        case Intrinsic::smin: case Intrinsic::smax: { bool lt = choose(s, sltBit(*s.f, a[0], a[1])); ret = (lt == (ii->getIntrinsicID() == Intrinsic::smin)) ? a[0] : a[1]; return true; }
        case Intrinsic::abs: { bool ng = choose(s, sltBit(*s.f, a[0], mkConst(a[0].w, 0))); ret = ng ? arith(*s.f, '-', mkConst(a[0].w, 0), a[0]) : a[0]; return true; }
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: {
            bool mul = ii->getIntrinsicID() == Intrinsic::umul_with_overflow; unsigned w = a[0].w;
            Val r = arith(*s.f, mul ? '*' : '+', a[0], a[1]); i128 al, ah, bl, bh; range(*s.f, a[0], al, ah); range(*s.f, a[1], bl, bh);
            Bit ov; if (w <= 64 && (mul ? (u128)ah * (u128)bh : (u128)ah + (u128)bh) < ((u128)1 << w)) ov = B0;
            else { Lin x = toLin(*s.f, mul && a[1].isConst() ? a[0] : a[0]); (void)x; if (mul && a[1].isConst()) { u128 lim = maskw(w) / a[1].c; ov = ultBit(*s.f, mkConst(w, lim), a[0]); } else if (mul) throw Inconclusive{"umul overflow"}; else ov = ultBit(*s.f, r, a[0]); }
            ret = mkAgg({r, mkBits({ov})}); return true; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return true;
        case Intrinsic::stacksave: ret = mkNull(); return true;
        case Intrinsic::expect: ret = a[0]; return true;
        case Intrinsic::is_constant: ret = mkConst(1, 0); return true;
        case Intrinsic::objectsize: ret = mkConst(64, ~0ull); return true;
        case Intrinsic::trap: case Intrinsic::debugtrap: obligation("no-trap"); violate("trap", "trap reached");
        case Intrinsic::fabs: { ret = arith(*s.f, '&', a[0], mkConst(a[0].w, maskw(a[0].w - 1))); return true; }
        case Intrinsic::copysign: { ret = arith(*s.f, '|', arith(*s.f, '&', a[0], mkConst(a[0].w, maskw(a[0].w - 1))), arith(*s.f, '&', a[1], mkConst(a[0].w, (u128)1 << (a[0].w - 1)))); return true; }
        case Intrinsic::is_fpclass: {
            u64 m = (u64)a[1].c; unsigned w = a[0].w, mw = w == 64 ? 52 : 23, ew = w - 1 - mw; const Facts &f = *s.f;
            auto b = bitsOf(a[0]); Bit sg = b[w-1]; Val e = extractBits(a[0], mw, ew), mm = extractBits(a[0], 0, mw);
            Bit eall = eqBit(f, e, mkConst(ew, maskw(ew))), ez = eqBit(f, e, mkConst(ew, 0)), mz = eqBit(f, mm, mkConst(mw, 0)), q = b[mw-1], r = B0;
            if (m & 1) r = bor(r, band(eall, band(bnot(mz), bnot(q)))); if (m & 2) r = bor(r, band(eall, band(bnot(mz), q)));
            auto cls = [&](unsigned neg, unsigned pos, Bit c) { if (m & neg) r = bor(r, band(c, sg)); if (m & pos) r = bor(r, band(c, bnot(sg))); };
            cls(4, 512, band(eall, mz)); cls(8, 256, band(bnot(eall), bnot(ez))); cls(16, 128, band(ez, bnot(mz))); cls(32, 64, band(ez, mz));
            ret = mkBits({r}); return true; }
        default: throw Inconclusive{"intrinsic " + n};
        }
    }
    const Facts &f = *s.f;
    // ---- analyser intrinsics
    if (n == "cx_sym") {
        std::string nm = constStr(s, a[0]); u64 w = constArg(s, a[1], "cx_sym width");
        u32 q = opSym(S_INPUT, (int)s.seq++, w, {}); T.syms[q].name = nm; auto b = bitsOf(symVal(q)); b.resize(64, B0); ret = mkBits(b); return true; }
    if (n == "cx_assume") { Bit b = bitsOf(a[0])[0]; sp<Facts> g(new Facts(*s.f)); if (!assumeBit(*g, b, true)) throw Killed(); s.f = g; return true; }
    if (n == "cx_assert") { Bit b = bitsOf(a[0])[0]; std::string m = constStr(s, a[1]); prove(s, b, "assertion", m); return true; }
    if (n == "cx_fail") { obligation("assertion"); violate("assertion", constStr(s, a[0])); }
    if (n == "cx_choose") { u64 lo = constArg(s, a[0], "lo"), hi = constArg(s, a[1], "hi"); Val v = freshKeyed(2, 64, {mkConst(64, s.seq)}, "choice"); s.seq++;
        Val q = simpS(s, v); if (!q.isConst()) { NeedFork nf; for (u64 k = lo; k <= hi; k++) nf.alts.push_back({[v, k](Facts&g) { return setSymConst(g, symIdOf(v), k); }}); throw nf; }
        ret = q; return true; }
    if (n == "cx_object") { u64 init = constArg(s, a[1], "init"); std::string nm = constStr(s, a[2]); ret = alloc(s, a[0], init, OK_DRV, nm); getMutObj(s, ret.base)->leakOk = true; return true; }
    if (n == "cx_readonly") { getMutObj(s, toPtrVal(a[0]).base)->ro = true; return true; }
    if (n == "cx_writable") { getMutObj(s, toPtrVal(a[0]).base)->ro = false; return true; }
    if (n == "cx_kill") { s.mm().m.erase(toPtrVal(a[0]).base); return true; }
    if (n == "cx_havoc") { Val p = toPtrVal(a[0]); { Obj *o = getMutObj(s, p.base); if (o && !o->dense) { // the whole of a region of unknown size
            sp<LogNode> w(new LogNode()); w->t = LogNode::INIT; w->init = 2; w->uid = 0x50000000u + (u32)s.seq++; uidName[w->uid] = "any content"; o->log = w; o->cstr = 0; return true; } } u64 len = constArg(s, a[1], "havoc length"); for (u64 i = 0; i < len; i++) storeBytes(s, mkPtr(p.base, addC(p.n->off, i)), fresh(s, 8, "havoc"), 1); return true; }
    if (n == "cx_cstring") { ret = alloc(s, addC(a[0], 1), 2, OK_DRV, "string"); Obj *o = getMutObj(s, ret.base); o->leakOk = true; Val l = simpS(s, a[0]);
        storeBytes(s, mkPtr(ret.base, l), mkConst(8, 0), 1); getMutObj(s, ret.base)->cstr = intern(l); return true; }
    if (n == "cx_set") { std::string k = constStr(s, a[0]); u64 v = constArg(s, a[1], "option"); if (k == "unroll") optUnroll = v; else if (k == "iter") optMaxIter = v; else if (k == "malloc_fail") flagMallocFail = v; else if (k == "capture") flagCapture = v; else if (k == "io_fail") flagIoFail = v; else if (k == "states") optStates = v; else if (k == "disj") optDisj = v; else if (k == "noundef") optNoUndef = v; else if (k == "digits") optDigits = v; else if (k == "aligned") optAligned = v; else throw Inconclusive{"unknown option " + k}; return true; }
    if (n == "cx_stop") throw Killed();
    if (n == "cx_done") { returnsSeen++; throw Killed(); }
    if (n == "cx_reach") { returnsSeen++; return true; }
    if (n == "cx_is_live") { Val p = toPtrVal(a[0]); bool l = p.base && getObj(s, p.base); ret = mkConst(1, l); return true; }
    if (n == "cx_same_object") { ret = mkConst(1, toPtrVal(a[0]).base == toPtrVal(a[1]).base); return true; }
    if (n == "cx_object_size") { Obj *o = getObj(s, toPtrVal(a[0]).base); if (!o) violate("invalid-read", "size of a dead object"); ret = o->size; return true; }
    if (n == "cx_offset_of") { ret = toPtrVal(a[0]).n->off; return true; }
    if (n == "cx_heap_live") { u64 c = 0; for (auto &e : s.mem->m) if (e.second->kind == OK_HEAP && !e.second->leakOk) c++; ret = mkConst(64, c); return true; }
    if (n == "cx_files_open") { u64 c = 0; for (auto &e : s.mem->m) if (e.second->kind == OK_FILE) c++; ret = mkConst(64, c); return true; }
    if (n == "cx_io_failed") { ret = mkBits({simpBit(f, s.ioFail)}); return true; }
    if (n == "cx_text") { ret = s.stdoutObj ? mkPtr(s.stdoutObj, mkConst(64, 0)) : mkNull(); return true; }
    if (n == "cx_out_len") { ret = mkConst(64, s.outp.size()); return true; }
    if (n == "cx_out_reset") { s.outp.clear(); return true; }
    if (n == "cx_out_at") { u64 i = constArg(s, a[0], "index"); if (i >= s.outp.size()) { ret = mkConst(16, 0xfffe); return true; } Val v = simpS(s, VAL(s.outp[i])); ret = v.w == 16 ? v : zextTo(f, v, 16); return true; }
    if (n == "cx_print") { fprintf(stderr, "[%s] %s = %s\n", curDriver.c_str(), constStr(s, a[0]).c_str(), valStr(simpS(s, a[1])).c_str()); return true; }
    if (n == "cx_is_const") { ret = mkConst(1, simpS(s, a[0]).isConst()); return true; }
    if (n == "cx_undef") { ret = mkConst(1, hasUndefVal(simpS(s, a[0]), 6)); return true; }
    // ---- memory
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "calloc") {
        Val sz = a[0]; if (n == "calloc") sz = arith(f, '*', a[0], a[1]);
        if (flagMallocFail && n[0] != '_') { Val q = freshKeyed(3, 1, {mkConst(64, s.seq)}, "alloc_ok"); bool ok = choose(s, bitsOf(q)[0]); s.seq++; if (!ok) { ret = mkNull(); return true; } }
        ret = alloc(s, sz, n == "calloc" ? 1 : 0, OK_HEAP, "heap block"); return true; }
    if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm") {
        Val p = toPtrVal(a[0]); obligation("valid-free");
        if (p.base == 0) { if (!p.n->off.isConst() || p.n->off.c) violate("invalid-free", "free of an invalid pointer"); return true; }
        Obj *o = p.base >= DYN ? s.obj(p.base) : nullptr;
        if (!o) violate("invalid-free", "free of memory that is already freed or was not allocated");
        if (o->kind != OK_HEAP && o->kind != OK_DRV) violate("invalid-free", "free of non-heap memory");
        if (!p.n->off.isConst() || p.n->off.c) violate("invalid-free", "free of an interior pointer");
        s.mm().m.erase(p.base); return true; }
    if (n == "realloc") {
        Val p = toPtrVal(a[0]); 
        if (p.base == 0) { ret = alloc(s, a[1], 0, OK_HEAP, "heap block"); return true; }
        Obj *o = p.base >= DYN ? s.obj(p.base) : nullptr; obligation("valid-free");
        if (!o || (o->kind != OK_HEAP && o->kind != OK_DRV)) violate("invalid-free", "realloc of memory that is not a live allocation");
        if (!p.n->off.isConst() || p.n->off.c) violate("invalid-free", "realloc of an interior pointer");
        if (choose(s, eqBit(f, a[1], mkConst(64, 0)))) { s.mm().m.erase(p.base); ret = mkNull(); return true; }
        Val ns = simpS(s, a[1]), os = simpS(s, o->size);
        Val cp = choose(s, ultBit(f, ns, os)) ? ns : os;
        sp<Obj> keep = s.mem->m[p.base];
        ret = alloc(s, ns, 0, OK_HEAP, keep->name); getMutObj(s, ret.base)->leakOk = keep->leakOk;
        copyBytes(s, ret, p, cp, true);
        s.mm().m.erase(p.base); return true; }
    if (n == "memcpy" || n == "memmove") { copyBytes(s, a[0], a[1], a[2], n == "memmove"); ret = a[0]; return true; }
    if (n == "memset") { setBytes(s, a[0], truncTo(a[1], 8), a[2]); ret = a[0]; return true; }
    if (n == "memcmp" || n == "strncmp" || n == "bcmp") {
        Val len = simpS(s, a[2]);
        if (len.isConst() && len.c <= 4096) {
            u64 L = (u64)len.c; if (!L) { ret = mkConst(32, 0); return true; }
            if (n != "strncmp") { access(s, toPtrVal(a[0]), len, false, "compare"); access(s, toPtrVal(a[1]), len, false, "compare"); }
            for (u64 i = 0; i < L; i++) {
                Val x = simpS(s, byteAt(s, a[0], mkConst(64, i))), y = simpS(s, byteAt(s, a[1], mkConst(64, i)));
                if (x.isPtr()) x = toIntVal(x); if (y.isPtr()) y = toIntVal(y);
                if (!choose(s, eqBit(f, x, y))) { bool lt = choose(s, ultBit(f, x, y)); ret = mkConst(32, lt ? ~0u : 1); return true; }
                if (n == "strncmp" && choose(s, eqBit(f, x, mkConst(8, 0)))) break;
            }
            ret = mkConst(32, 0); return true;
        }
        access(s, toPtrVal(a[0]), len, false, "compare"); access(s, toPtrVal(a[1]), len, false, "compare");
        ret = fresh(s, 32, "memcmp"); return true; }
    if (n == "strlen") { ret = modelStrlen(s, a[0]); return true; }
    if (n == "strcmp" || n == "strcasecmp") {
        Val p = toPtrVal(a[0]), q = toPtrVal(a[1]); Obj *x = access(s, p, mkConst(64, 1), false, "string compare"), *y = access(s, q, mkConst(64, 1), false, "string compare");
        if (x->cstr || y->cstr) { ret = fresh(s, 32, "strcmp"); return true; }
        for (u64 i = 0; i < 300000; i++) { Val c = simpS(s, byteAt(s, p, mkConst(64, i))), d = simpS(s, byteAt(s, q, mkConst(64, i)));
            if (!choose(s, eqBit(f, c, d))) { bool lt = choose(s, ultBit(f, c, d)); ret = mkConst(32, lt ? ~0u : 1); return true; }
            if (choose(s, eqBit(f, c, mkConst(8, 0)))) { ret = mkConst(32, 0); return true; } }
        throw Inconclusive{"unbounded strcmp"}; }
    if (n == "memchr" || n == "strchr") {
        u64 L = n == "memchr" ? constArg(s, a[2], "memchr length") : 100000; Val c = truncTo(a[1], 8);
        for (u64 i = 0; i < L; i++) { Val x = simpS(s, byteAt(s, a[0], mkConst(64, i))); if (choose(s, eqBit(f, x, c))) { Val p = toPtrVal(a[0]); ret = mkPtr(p.base, addC(p.n->off, i)); return true; } if (n == "strchr" && choose(s, eqBit(f, x, mkConst(8, 0)))) break; }
        ret = mkNull(); return true; }
    if (n == "strcpy" || n == "stpcpy") { Val l = modelStrlen(s, a[1]); copyBytes(s, a[0], a[1], addC(l, 1), false); ret = a[0]; return true; }
    if (n == "strdup") { Val l = modelStrlen(s, a[0]); ret = alloc(s, addC(l, 1), 0, OK_HEAP, "heap block"); copyBytes(s, ret, a[0], addC(l, 1), false); return true; }
    // ---- formatting and stdio
    if (n == "snprintf") { std::vector<Val> v(a.begin() + 3, a.end()); ret = doFormat(s, a[0], a[1], a[2], v); return true; }
    if (n == "vsnprintf") { ret = doFormat(s, a[0], a[1], a[2], vaArgs(s, a[3])); return true; }
    if (n == "printf") { emitOut(s, a[0], std::vector<Val>(a.begin() + 1, a.end())); ret = mkConst(32, 1); return true; }
    if (n == "vprintf") { emitOut(s, a[0], vaArgs(s, a[1])); ret = mkConst(32, 1); return true; }
    if (n == "puts") { Val fm = a[0]; std::vector<Val> b; if (knownStr(s, fm, b, -1) && flagCapture) { for (auto &x : b) s.outp.push_back(intern(x)); s.outp.push_back(intern(mkConst(8, '\n'))); } ret = mkConst(32, 1); return true; }
    if (n == "putchar") { if (flagCapture) s.outp.push_back(intern(truncTo(a[0], 8))); ret = a[0]; return true; }
    if (n == "fputc" || n == "putc") { if (flagCapture && !isErr(a[1])) s.outp.push_back(intern(truncTo(a[0], 8))); ret = a[0]; return true; }
    if (n == "fputs") { std::vector<Val> b; if (knownStr(s, a[0], b, -1) && flagCapture && !isErr(a[1])) for (auto &x : b) s.outp.push_back(intern(x)); ret = mkConst(32, 1); return true; }
    if (n == "fprintf") { fileArg(s, a[0], "fprintf"); if (!isErr(a[0])) emitOut(s, a[1], std::vector<Val>(a.begin() + 2, a.end())); else format(s, a[1], std::vector<Val>(a.begin() + 2, a.end())); ret = mkConst(32, 1); return true; }
    if (n == "vfprintf") { fileArg(s, a[0], "vfprintf"); if (!isErr(a[0])) emitOut(s, a[1], vaArgs(s, a[2])); else format(s, a[1], vaArgs(s, a[2])); ret = mkConst(32, 1); return true; }
    if (n == "fopen") {
        Val q = freshKeyed(4, 1, {mkConst(64, s.seq)}, "fopen_ok"); bool ok = !flagIoFail || choose(s, bitsOf(q)[0]); s.seq++;
        if (!ok) { s.ioFail = B1; ret = mkNull(); return true; }
        ret = alloc(s, mkConst(64, 16), 1, OK_FILE, "stream"); return true; }
    if (n == "fclose") {
        fileArg(s, a[0], "fclose"); Val p = toPtrVal(a[0]); s.mm().m.erase(p.base);
        Val q = freshKeyed(5, 1, {mkConst(64, s.seq++)}, "fclose_fail"); std::vector<Bit> r(32, flagIoFail ? bitsOf(q)[0] : B0); bor_into(s.ioFail, r[0]); ret = mkBits(r); return true; }
    if (n == "fflush" || n == "ferror") { Val q = freshKeyed(6, 1, {mkConst(64, s.seq++)}, n.c_str()); std::vector<Bit> r(32, flagIoFail ? bitsOf(q)[0] : B0); bor_into(s.ioFail, r[0]); ret = mkBits(r); return true; }
    if (n == "fileno") { fileArg(s, a[0], "fileno"); ret = mkConst(32, 3); return true; }
    if (n == "fstat" || n == "stat") {
        Val q = freshKeyed(8, 1, {mkConst(64, s.seq)}, "fstat_fail"); bool bad = flagIoFail && choose(s, bitsOf(q)[0]); Val k = mkConst(64, s.seq++);
        if (bad) { s.ioFail = B1; ret = mkConst(32, ~0u); return true; }
        Val p = toPtrVal(a[1]); access(s, p, mkConst(64, 144), true, "stat buffer");
        setBytes(s, p, mkConst(8, 0), mkConst(64, 144)); Val sz = freshKeyed(9, 64, {k}, "st_size"); u32 id = symIdOf(sz); T.syms[id].hasHi = true; T.syms[id].hiBound = (u128)1 << 46;
        if (!addIn(s.mf(), linAdd(linConst((i128)1 << 46), linSym(id), -1))) throw Infeasible();
        storeBytes(s, mkPtr(p.base, addC(p.n->off, 48)), sz, 8); ret = mkConst(32, 0); return true; }
    if (n == "fread") {
        fileArg(s, a[3], "fread"); Val tot = simpS(s, arith(f, '*', a[1], a[2])); Val p = toPtrVal(a[0]);
        if (!choose(s, eqBit(f, tot, mkConst(64, 0)))) access(s, p, tot, true, "fread destination"); else { ret = mkConst(64, 0); return true; }
        Val r = freshKeyed(10, 64, {mkConst(64, s.seq)}, "fread_count"); u32 rid = symIdOf(r); Lin lim = linAdd(toLin(f, a[2]), linSym(rid), -1);
        u32 uid = 0x40000000u + (u32)s.seq; s.seq++;
        if (!addIn(s.mf(), lim)) throw Infeasible();
        if (!flagIoFail) { if (!addIn(s.mf(), linAdd(linSym(rid), toLin(*s.f, a[2]), -1))) throw Infeasible(); }
        sp<LogNode> src(new LogNode()); src->t = LogNode::INIT; src->init = 2; src->uid = uid; uidName[uid] = "file";
        Val doff = simpS(s, p.n->off); Obj *o = getMutObj(s, p.base); toLog(o); o->cstr = 0;
        Val got = a[1].isConst() && a[1].c == 1 ? r : tot;
        sp<LogNode> w(new LogNode()); w->t = LogNode::COPY; w->prev = o->log; w->off = doff; w->len = got; w->src = src; w->srcOff = mkConst(64, 0); w->uid = o->uid; o->log = w;
        { Lin x = linAdd(linSym(rid), toLin(*s.f, a[2]), -1); Val aa = simpS(s, a[2]); bor_into(s.ioFail, neBit(s, simpS(s, r), aa)); (void)x; }
        ret = simpS(s, r); return true; }
    if (n == "fwrite") {
        fileArg(s, a[3], "fwrite"); Val tot = simpS(s, arith(f, '*', a[1], a[2]));
        if (choose(s, eqBit(f, tot, mkConst(64, 0)))) { ret = mkConst(64, 0); return true; }
        access(s, toPtrVal(a[0]), tot, false, "fwrite source");
        if (flagCapture && !isErr(a[3]) && tot.isConst() && tot.c < 100000) { // to the standard output
            Val fp = toPtrVal(a[3]); Obj *fo = s.obj(fp.base);
            if (!fo || fo->kind != OK_FILE) { for (u64 i = 0; i < (u64)tot.c; i++) s.outp.push_back(intern(simpS(s, byteAt(s, a[0], mkConst(64, i))))); ret = simpS(s, a[2]); return true; }
        }
        Val r = freshKeyed(11, 64, {mkConst(64, s.seq++)}, "fwrite_count"); u32 rid = symIdOf(r); Lin lim = linAdd(toLin(f, a[2]), linSym(rid), -1);
        if (!addIn(s.mf(), lim)) throw Infeasible();
        if (!flagIoFail) { if (!addIn(s.mf(), linAdd(linSym(rid), toLin(*s.f, a[2]), -1))) throw Infeasible(); }
        bor_into(s.ioFail, neBit(s, simpS(s, r), simpS(s, a[2]))); ret = simpS(s, r); return true; }
    if (n == "__errno_location") { u32 id = DYN + (1u << 24); if (!s.obj(id)) { s.mm().m[id] = newObj(mkConst(64, 4), OK_DRV, 1, "errno", id); } ret = mkPtr(id, mkConst(64, 0)); return true; }
    if (n == "strerror") { u32 id = DYN + (1u << 24) + 1; if (!s.obj(id)) { auto o = newObj(mkConst(64, 8), OK_DRV, 1, "strerror", id); for (int i = 0; i < 5; i++) putCells(o->d, i, mkConst(8, "error"[i]), 1); s.mm().m[id] = o; } ret = mkPtr(id, mkConst(64, 0)); return true; }
    if (n == "isdigit") {
        obligation("ctype-argument"); i128 lo, hi; range(f, a[0], lo, hi);
        { Bit ok = bor(ultBit(f, a[0], mkConst(32, 256)), eqBit(f, a[0], mkConst(32, ~0u))); if (!proveBit(f, ok, 10)) violate("ctype-argument", "character class test of a value that is neither EOF nor an unsigned char"); }
        ret = i32v(s, band(bnot(ultBit(f, a[0], mkConst(32, '0'))), ultBit(f, a[0], mkConst(32, '9' + 1)))); return true; }
    if (n == "isspace" || n == "isalpha" || n == "isalnum" || n == "isprint" || n == "toupper" || n == "tolower" || n == "isxdigit" || n == "isupper" || n == "islower") {
        u64 c = concretize(s, a[0], 260, "a character"); int r = n == "isspace" ? !!isspace(c) : n == "isalpha" ? !!isalpha(c) : n == "isalnum" ? !!isalnum(c) : n == "isprint" ? !!isprint(c) : n == "toupper" ? toupper(c) : n == "tolower" ? tolower(c) : n == "isxdigit" ? !!isxdigit(c) : n == "isupper" ? !!isupper(c) : !!islower(c); ret = mkConst(32, r); return true; }
    // ---- control
    if (n == "__assert_fail") { obligation("no-assert-failure"); std::string m; try { m = constStr(s, a[0]); } catch (...) {} violate("assert-failure", "assertion may fail: " + m); }
    if (n == "abort") { obligation("no-abort"); violate("abort", "abort() reached"); }
    if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") throw Killed();
    if (n == "__cxa_atexit" || n == "atexit") { ret = mkConst(32, 0); return true; }
    if (n == "__cxa_guard_acquire") { Val g = simpS(s, loadBytes(s, a[0], 1)); ret = zextTo(f, mkConst(1, g.isConst() && g.c == 0), 32); return true; }
    if (n == "__cxa_guard_release") { storeBytes(s, a[0], mkConst(8, 1), 1); return true; }
    if (n.compare(0, 10, "_ZSt9termin") == 0 || n == "_ZSt9terminatev" || n == "__clang_call_terminate") { obligation("no-exception"); violate("exception", "std::terminate reached"); }
    if (n.find("__throw_") != std::string::npos || n == "__cxa_throw" || n == "__cxa_rethrow" || n == "__cxa_throw_bad_array_new_length") { obligation("no-exception"); violate("exception", "exception thrown: " + n); }
    if (n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_allocate_exception" || n == "__cxa_free_exception") { ret = mkNull(); return true; }
    return false;
}
