#pragma once
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <memory>

struct Obj {
    uint64_t base = 0, size = 0;
    bool alive = true, external = false, stack = false;
    std::vector<uint8_t> data;
    std::vector<uint8_t> flag;  // 0 uninitialised, 1 concrete, 2 symbolic (in overlay)
    struct Cell { Val v; uint32_t size; };
    std::map<uint32_t, Cell> ov;
    std::string what;
};

struct FuncInfo;
struct Ins {
    llvm::Instruction* I;
    unsigned opc;
    int dst;
    std::vector<int> ops;
    uint32_t bits = 0;      // integer width of result/operand
    uint64_t size = 0;      // store size of accessed type
    uint8_t ty = 0;         // 0 int/ptr, 1 double, 2 aggregate, 3 void/other
    int64_t goff = 0;       // gep: constant offset
    std::vector<std::pair<int, uint64_t>> gidx;
    std::vector<int> gbits;
    int t0 = -1, t1 = -1;   // block targets
    llvm::Function* callee = nullptr;
    FuncInfo* cfi = nullptr;
    int handler = -1;
};
struct Blk {
    int first;
    std::vector<int> phiIns;
    int firstNonPhi;
};
struct FuncInfo {
    llvm::Function* F;
    std::string name;
    int index;
    int nargs, nregs;
    std::vector<Ins> code;
    std::vector<Blk> blocks;
    std::vector<Val> consts;
    std::unordered_map<const llvm::BasicBlock*, int> bidx;
    bool compiled = false;
};
struct Frame {
    FuncInfo* fi;
    std::vector<Val> regs;
    int pc;
    int blk, prevBlk;
    std::vector<uint64_t> allocas;
    Val excPtr;
    int excSel = 0;
};
