#pragma once
#include "exec.h"
#include <llvm/Support/raw_ostream.h>
struct PathEnd {};
struct Config {
    std::string repo = "/repo", file, out; bool verbose = false, replay = false, stopAtFirst = false;
    std::map<std::string, u64> replayVals; std::vector<u8> replaySched;
    u64 maxSteps = 60000000; double maxTime = 600; u64 maxPaths = 10000000; size_t maxMem = 6ull << 30; int maxViol = 5;
    std::map<std::string, u64> params; std::string own = "/verif";
};
struct Stats { u64 states = 0, forks = 0, decides = 0, obligations = 0, checks = 0, merged = 0, nodes = 0, infeasible = 0, bounded = 0, choices = 0, steps = 0, paths = 0, uninit = 0, maxThreads = 1; };
struct Violation { std::string id, msg, loc, stack; u64 count; size_t threads; int tids; std::vector<std::pair<std::string, u64>> inputs; std::vector<u8> sched; };
extern llvm::Module *M; extern const llvm::DataLayout *DL; extern State *S; extern std::deque<State *> g_work; extern Config g_cfg; extern Stats g_st;
extern std::vector<Violation> g_viol; extern std::map<std::string, u64> g_cover, g_incomplete;
extern std::unordered_map<const llvm::Function *, DFunc *> g_funcs; extern std::map<u64, DFunc *> g_funcByAddr;
extern std::map<std::string, u64> g_externAddr;
[[noreturn]] void incomplete(const std::string &why);
[[noreturn]] void violate(const std::string &id, const std::string &msg);
void report(const std::string &id, const std::string &msg, const Model &m);
DFunc *dfunc(const llvm::Function *F);
void decode(DFunc *d);
BFn findBuiltin(const std::string &n, bool &vis);
void initImage();
u64 newObject(u64 size, ObjKind k, bool uninit);
u64 globalAddr(const llvm::GlobalVariable *g);
void freeObj(u64 id, const Inst *site);
E freshVar(unsigned w, const std::string &name, u64 lo, u64 hi, bool input);
bool decide(E c); u64 concretize(E e); u64 concr(const Val &v); bool mayBe(E c, Model &m); void assume(E c);
void mustHold(E c, const std::string &id, const std::string &msg);
void addCons(E c);
Val loadMem(const Val &a, u32 n, bool atomic); void storeMem(const Val &a, u32 n, const Val &v, bool atomic);
Val rawLoad(u64 id, Obj *o, u64 off, u32 n); void rawStore(u64 id, u64 off, u32 n, const Val &v);
u64 concreteAddr(const Val &a, u64 n, bool write);
void memCopy(u64 dst, u64 src, u64 n); void memFill(u64 dst, const Val &v, u64 n); std::string cstr(u64 a);
u64 load64(u64 a); u32 load32(u64 a); void store64(u64 a, u64 v); void store32(u64 a, u32 v);
Val argv(Inst &in, unsigned i); u64 argc_(Inst &in, unsigned i); void setv(int dst, const Val &v);
void advance(Inst &in); void branchTo(int b); Frame &pushFrame(DFunc *f); void pushCallback(DFunc *f, std::initializer_list<u64> args); void popFrame();
void finishCallback(bool unwinding, Frame &fr);
void threadReturn(); int newThread(DFunc *f, u64 arg); void yieldPoint(); int schedChoice(int n, bool);
void hbAcquire(u64 key); void hbRelease(u64 key);
void raiseExc(u64 ex); void unwind(u64 ex, bool resume);
int mergePoint(bool canRun); void mergeEnd(); void mergeFinish(); extern bool g_fair; extern i64 g_fairFrom; extern i64 g_fairLeft; extern int g_fairRuns; bool fairRun(const std::map<std::string, u64> &in, const std::vector<u8> &sched, u64 calls);
extern bool g_wasMerged;
void runState(); void checkLimits();
std::string stackTrace(); std::string topLoc();
std::string locOf(const llvm::Instruction *I);
Val icmp(unsigned p, const Val &a, const Val &b, unsigned w);
E toEV(const Val &v, unsigned w);
