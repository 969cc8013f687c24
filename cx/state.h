#pragma once
#include "facts.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/StringExtras.h"

struct Cell { u32 v = 0; u32 i = 0; bool operator==(const Cell&o) const { return v == o.v && i == o.i; } };
static const u32 CELL_UNDEF = 0, CELL_SYM = ~0u;   // .v values

// history of a region that is written at symbolic offsets
struct LogNode : RefBase {
    enum T : u8 { DENSE, INIT, WRITE, COPY, SET } t = INIT;
    sp<LogNode> prev, src; Val off, len, srcOff; V v = 0; u32 n = 0; u32 uid = 0; u8 init = 0; std::vector<Cell> cells;
};
enum ObjKind : u8 { OK_STACK, OK_HEAP, OK_GLOBAL, OK_FILE, OK_DRV };
struct Obj : RefBase {
    Val size; bool ro = false, dense = true; ObjKind kind = OK_STACK; u8 init = 0; u32 uid = 0; V cstr = 0;
    std::vector<Cell> d; sp<LogNode> log; std::string name; u8 fclosed = 0; bool leakOk = false;
};
struct MemMap : RefBase { std::map<u32, sp<Obj>> m; };
struct State {
    sp<Facts> f; sp<MemMap> mem; u32 nextObj = 0; u32 seq = 0;
    std::vector<V> regs; std::vector<u32> allocas; std::vector<u32> iters, forks;
    Bit ioFail = B0; u32 openFiles = 0, stdoutObj = 0;
    sp<VN> out; // captured output bytes (bits vector unused): Vals
    std::vector<V> outp;
    Facts& mf() { if (f->rc > 1) f = sp<Facts>(new Facts(*f)); return *f; }
    MemMap& mm() { if (mem->rc > 1) mem = sp<MemMap>(new MemMap(*mem)); return *mem; }
    Obj* obj(u32 id) const { auto it = mem->m.find(id); return it == mem->m.end() ? nullptr : it->second.p; }
    Obj* mobj(u32 id) { auto &M = mm(); auto it = M.m.find(id); if (it == M.m.end()) return nullptr;
        if (it->second->rc > 1) it->second = sp<Obj>(new Obj(*it->second.p)); return it->second.p; }
};
