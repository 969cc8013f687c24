// The path-insensitive-content / partition facts of an abstract state:
// bit substitutions, symbol ranges, linear (in)equalities, wrap counts.
#pragma once
#include "dom.h"

typedef u32 V; // interned Val
struct ValTable {
    std::vector<Val> v; std::unordered_map<std::vector<u64>,u32,Vec64Hash> idx;
    std::unordered_map<u64,u32> cidx;
    void reset() { v.clear(); idx.clear(); cidx.clear(); v.push_back(Val()); }
    ValTable() { reset(); }
};
extern ValTable VT;
V intern(const Val&v);
static inline const Val& VAL(V v) { return VT.v[v]; }

struct Facts : RefBase {
    std::unordered_map<u32,Bit> sub;
    std::map<u32,std::pair<i128,i128>> rg;   // symbol (or slice symbol) -> range
    std::vector<Lin> eq, in;
    std::vector<u32> ic;                      // assumed comparison atoms, re-examined as their operands become known
    mutable std::map<u32,i128> wrap;
    mutable std::unordered_map<Bit,Bit> bc;
    mutable std::unordered_map<u32,Val> sc;
    mutable std::unordered_map<V,V> vc;
    Facts() {}
    Facts(const Facts&o) : sub(o.sub), rg(o.rg), eq(o.eq), in(o.in), ic(o.ic), wrap(o.wrap) {}
    void changed() { bc.clear(); sc.clear(); vc.clear(); }
};
struct Alt { std::function<bool(Facts&)> apply; };
struct NeedFork { std::vector<Alt> alts; };
struct Infeasible {};
struct Inconclusive { std::string why; bool term = false; }; // term: the bound on iterations, recursion or partitions is exceeded, so termination is not established

Bit simpBit(const Facts&f, Bit b);
Val simpVal(const Facts&f, const Val&v);
void range(const Facts&f, const Val&v, i128&lo, i128&hi);     // unsigned range, cheap
void symRange(const Facts&f, u32 s, i128&lo, i128&hi);
Lin toLin(const Facts&f, const Val&v);                        // may throw NeedFork
bool tryLin(const Facts&f, const Val&v, Lin&out);             // no fork; false when the wrap count is ambiguous
bool possible(const Facts&f, const std::vector<Lin>&eqs, const std::vector<Lin>&ins);
bool implied(const Facts&f, const Lin&nonneg);                // f => lin >= 0
bool addIn(Facts&f, const Lin&l);                             // false: infeasible
bool addEq(Facts&f, const Lin&l);
bool assumeBit(Facts&f, Bit b, bool v);                       // false: infeasible; may throw NeedFork
int decideBit(const Facts&f, Bit&b);                          // 0 / 1 / -1 unknown; simplifies b
bool proveBit(const Facts&f, Bit b, int depth);               // case splitting
bool setSymConst(Facts&f, u32 s, u128 c);

Bit eqBit(const Facts&f, Val a, Val b);
Bit ultBit(const Facts&f, Val a, Val b);
Bit sltBit(const Facts&f, Val a, Val b);
Val arith(const Facts&f, int op, const Val&a, const Val&b);   // op: '+','-','*','/','%','&','|','^'
Val shiftc(const Facts&f, char op, const Val&a, unsigned k);  // '<' shl, '>' lshr, 'a' ashr
Val truncTo(const Val&a, unsigned w);
Val zextTo(const Facts&f, const Val&a, unsigned w);
Val sextTo(const Facts&f, const Val&a, unsigned w);
Val extractBits(const Val&a, unsigned lo, unsigned len);
Val concat(const std::vector<Val>&bytesLowFirst);
Val addC(const Val&a, i128 c);
void joinFacts(const Facts&a, const Facts&b, Facts&o);
Val toIntVal(const Val&v); extern bool (*baseAligned)(u32 base);
Val toPtrVal(const Val&v);
u32 addrSym(u32 base); extern u32 addrSyms; // addresses taken as integers
