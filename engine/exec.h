#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <string>
#include <deque>
#include <functional>

enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_BR, I_CONDBR, I_SWITCH, I_RET,
                I_UNREACHABLE, I_COPY, I_INSVAL, I_INSELT, I_EXTELT, I_SHUFFLE, I_LPAD, I_RESUME, I_RMW, I_CMPXCHG, I_FENCE,
                I_FNEG, I_NOP, I_UNSUP };
struct Leaf { u32 w; u32 off; u32 bytes; bool fp; bool ptr; };
struct TypeLay { std::vector<Leaf> leaves; u64 size = 0; bool ok = true; };
struct Opnd { int i; };                            // >=0 register slot, <0 constant ~i
struct DFunc;
struct State; struct Inst;
enum BStat { B_DONE, B_BLOCK, B_JUMPED };          // B_JUMPED: control flow already set up
typedef BStat (*BFn)(Inst &);
struct Callee { DFunc *fn = nullptr; BFn bi = nullptr; int intr = 0; std::string missing; bool vis = false; };
struct GepTerm { Opnd o; i64 scale; unsigned w; };
struct GepInfo { i64 off = 0; std::vector<GepTerm> terms; };
struct Inst {
    IOp op = I_UNSUP; u8 sub = 0; bool vis = false; bool fp = false; bool isPtr = false; bool refc = false; bool weak = false;
    u16 w = 0, w2 = 0; u32 n = 1;
    int dst = -1;
    std::vector<Opnd> ops;
    const llvm::Instruction *I = nullptr;
    int t0 = -1, t1 = -1;                          // branch targets / invoke normal+unwind
    u64 imm = 0; u8 ord = 0;
    const TypeLay *lay = nullptr;
    GepInfo *gep = nullptr;
    Callee *callee = nullptr;
    std::vector<const TypeLay *> argLay; std::vector<u64> byval;
    std::vector<std::pair<u64, int>> cases;
    u32 self = 0;                                  // own basic block
    u32 siteId = 0;
};
struct Move { int dst; u32 n; Opnd o; };
struct DBB { std::vector<Inst> in; std::vector<std::pair<int, std::vector<Move>>> phis; const llvm::BasicBlock *bb; int lpad = -1; };
struct DFunc {
    const llvm::Function *F; std::string name; bool decoded = false, ran = false, exempt = false;
    u32 nregs = 0; std::vector<DBB> bb; std::vector<Val> consts; u32 nargs = 0; std::vector<u32> argSlots;
    bool varargs = false; u64 addr = 0;
    std::unordered_map<const llvm::Value *, std::pair<int, u32>> slotOf;
    std::vector<std::vector<bool>> liveOut; std::unordered_map<u64, std::vector<int>> liveAt;
};
struct Frame {
    DFunc *f = nullptr; int bb = 0, ip = 0; std::vector<Val> regs; std::vector<u64> allocas; std::vector<std::pair<Val, u32>> va;
    bool plain = false, again = false, hasRetv = false; Val retv{nullptr, 0}; u64 onceAddr = 0, freeOnRet = 0, stackBase = 0;
};
typedef std::array<u32, MAXT> VC;
enum TStat : u8 { T_RUN, T_BLOCK, T_DONE };
enum WKind : u8 { W_NONE, W_MUTEX, W_SEM, W_JOIN, W_COND, W_FUTEX, W_ONCE, W_YIELD };
struct Caught { u64 addr; int count; };
struct Thread {
    std::vector<std::shared_ptr<Frame>> st;
    TStat stat = T_RUN; WKind wk = W_NONE; u64 wait = 0; bool timed = false; int phase = 0; bool schedDone = false; bool timedOut = false;
    u64 saved = 0;
    std::vector<Caught> caught; int uncaught = 0; u64 pendExc = 0; u64 pendSel = 0;
    std::map<const llvm::GlobalVariable *, u64> tls;
    std::vector<std::array<u64, 2>> atexit;
    VC vc{}, relF{}, acqP{};
    std::map<const Inst *, int> spin; bool detached = false;
    u64 heapNext = 0, stackNext = 0; std::set<u64> seen;
};
struct ExcInfo { u64 tinfo, dtor; int refs; bool rethrown; };
struct MutexSt { int owner = -1; u32 depth = 0; };
struct State {
    Mem mem;
    std::vector<Thread> th; int cur = 0;
    std::vector<E> cons; Model model; std::vector<std::pair<u32, u64>> known;
    std::map<u64, MutexSt> mtx; std::map<u64, i64> sems;
    std::map<u64, ExcInfo> exc; std::map<u64, VC> sync;
    std::map<std::string, int> occ; std::vector<u32> inputs;
    std::vector<std::array<u64, 2>> atexit;
    u64 steps = 0; int preempts = 0; int maxPre = 2; int timeouts = 1; int forcedTimeouts = 12; int spurious = 0; bool race = false; bool ended = false;
    u64 visOps = 0, calls = 0; std::vector<u8> sched; u64 id = 0; int spinLimit = 6; u64 stepLimit = 0; int pend = -1; u64 clock = 0;
    bool merge = false, det = false; int addr = 0, clz = 0; u64 consHash = 0; i64 node = -1; std::vector<int> opts; bool optCan = false, optForced = false;
    State() {}
    State(const State &) = default;
    Frame &top() {
        auto &p = th[cur].st.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
};
