#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0; static bool g_stop; static std::string g_stopWhy;
void checkLimits() {
    if (now() - t0 > g_cfg.maxTime) { g_stop = true; g_stopWhy = "time limit"; throw PathEnd{}; }
    if (g_memBytes > g_cfg.maxMem) { g_stop = true; g_stopWhy = "memory limit"; throw PathEnd{}; }
}
static std::string js(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
struct Wit { std::vector<std::pair<std::string, u64>> in; std::vector<u8> sched; size_t threads; };
static std::vector<Wit> g_wit; static size_t g_maxWit = 0;
static void runAll() {
    while (!g_work.empty() && !g_stop) {
        S = g_work.back(); g_work.pop_back();
        g_wasMerged = false;
        try {
            checkLimits(); runState(); g_st.paths++;
            if (g_wit.size() < g_maxWit && (g_st.paths & (g_st.paths - 1)) == 0) {
                std::vector<std::pair<std::string, u64>> w;
                for (u32 i : S->inputs) w.push_back({g_vars[i].name, i < S->model->size() ? (*S->model)[i] : 0});
                g_wit.push_back({w, S->sched, S->th.size()});
            }
        } catch (PathEnd &) {}
        if (S->merge && !g_wasMerged) mergeEnd();
        delete S; S = nullptr;
        if ((int)g_viol.size() >= g_cfg.maxViol) { g_stop = true; g_stopWhy = "violation limit"; }
        if (g_st.paths >= g_cfg.maxPaths) { g_stop = true; g_stopWhy = "path limit"; }
    }
}
// Re-executes a state's history and goes on under a random (fair) scheduler: does the run end?
static State *g_start;
bool fairRun(const std::map<std::string, u64> &in, const std::vector<u8> &sched, u64 calls) {
    auto rv = g_cfg.replayVals; auto rs = g_cfg.replaySched; auto viol = g_viol; auto inc = g_incomplete; auto st = g_st; auto cov = g_cover;
    bool ended = true;
    g_cfg.replay = true; g_cfg.replayVals = in; g_cfg.replaySched = sched; g_fairFrom = calls; g_fairLeft = 60000;
    S = new State(*g_start);
    try { checkLimits(); runState(); } catch (PathEnd &) { if (g_fairLeft <= 0) ended = false; }
    delete S; S = nullptr; for (auto *x : g_work) delete x; g_work.clear();
    g_cfg.replay = false; g_fair = false; g_cfg.replayVals = rv; g_cfg.replaySched = rs; g_viol = viol; g_incomplete = inc; g_st = st; g_cover = cov; g_fairFrom = -1;
    return ended;
}
// Optimised code may name a thread_local directly instead of through llvm.threadlocal.address: make every use go through it.
static void normaliseTls(Module &M) {
    for (auto &f : M) if (f.isDeclaration() && f.hasExternalWeakLinkage() && f.getName().starts_with("_ZTH")) f.replaceAllUsesWith(ConstantPointerNull::get(f.getType()));     // no dynamic initialisation
    std::vector<GlobalVariable *> gs; std::vector<Constant *> cs;
    for (auto &g : M.globals()) if (g.isThreadLocal()) { gs.push_back(&g); cs.push_back(&g); }
    if (gs.empty()) return;
    convertUsersOfConstantsToInstructions(cs);
    for (auto *g : gs) {
        std::vector<Use *> us; for (auto &u : g->uses()) us.push_back(&u);
        for (auto *u : us) {
            auto *I = dyn_cast<Instruction>(u->getUser()); if (!I) continue;
            if (auto *C = dyn_cast<IntrinsicInst>(I)) if (C->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            auto *ph = dyn_cast<PHINode>(I);
            Instruction *at = ph ? ph->getIncomingBlock(*u)->getTerminator() : I;
            IRBuilder<> B(at); Value *a = B.CreateThreadLocalAddress(g);
            if (ph) { auto *bb = ph->getIncomingBlock(*u); for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (ph->getIncomingBlock(i) == bb && ph->getIncomingValue(i) == g) ph->setIncomingValue(i, a); }
            else u->set(a);
        }
    }
}
int main(int argc, char **argv) {
    std::string bc, entry = "sym_main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "-o") g_cfg.out = val(); else if (a == "-v") g_cfg.verbose = true; else if (a == "--entry") entry = val(); else if (a == "--time") g_cfg.maxTime = atof(val().c_str());
        else if (a == "--steps") g_cfg.maxSteps = strtoull(val().c_str(), 0, 10); else if (a == "--paths") g_cfg.maxPaths = strtoull(val().c_str(), 0, 10); else if (a == "--repo") g_cfg.repo = val();
        else if (a == "--own") g_cfg.own = val(); else if (a == "--mem") g_cfg.maxMem = strtoull(val().c_str(), 0, 10) << 20; else if (a == "--qtimeout") g_timeoutMs = atoi(val().c_str()); else if (a == "--max-viol") g_cfg.maxViol = atoi(val().c_str());
        else if (a == "--witness") g_maxWit = atoi(val().c_str());
        else if (a == "--param") { std::string p = val(); size_t e = p.find('='); g_cfg.params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
        else if (a == "--replay") {
            g_cfg.replay = true; std::ifstream f(val()); std::string line;
            while (std::getline(f, line)) {
                std::istringstream is(line); std::string k; is >> k;
                if (k == "input") { std::string n; u64 v; is >> n >> v; g_cfg.replayVals[n] = v; }
                else if (k == "sched") { int v; while (is >> v) g_cfg.replaySched.push_back(v); }
                else if (k == "param") { std::string n; u64 v; is >> n >> v; g_cfg.params[n] = v; }
            }
        } else bc = a;
    }
    t0 = now();
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("engine", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout(); normaliseTls(*M);
    S = new State; S->model = std::make_shared<ModelVec>();
    S->th.resize(1); S->th[0].vc[0] = 1;
    initImage();
    // entry wrapper: global constructors then sym_main
    Function *ent = M->getFunction(entry);
    if (!ent || ent->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    std::vector<std::pair<u64, Function *>> ctors;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    // synthesize: void __entry() { ctors...; sym_main(); }
    {
        Function *F = Function::Create(FunctionType::get(Type::getVoidTy(ctx), false), GlobalValue::ExternalLinkage, "__entry", *M);
        BasicBlock *B = BasicBlock::Create(ctx, "e", F);
        for (auto &c : ctors) CallInst::Create(c.second, "", B);
        std::vector<Value *> args; for (auto &a : ent->args()) args.push_back(Constant::getNullValue(a.getType()));
        CallInst::Create(ent, args, "", B);
        ReturnInst::Create(ctx, B);
        pushFrame(dfunc(F));
    }
    g_start = new State(*S); g_work.push_back(S); S = nullptr;
    runAll();
    if (!g_stop) mergeFinish();
    double secs = now() - t0;
    std::string status = !g_viol.empty() ? "violation" : (g_stop || !g_incomplete.empty()) ? "incomplete" : "ok";
    std::ostringstream o;
    o << "{\"status\":" << js(status) << ",\"stop\":" << js(g_stopWhy) << ",\"pending\":" << g_work.size() << ",\"seconds\":" << secs << ",\"paths\":" << g_st.paths << ",\"forks\":" << g_st.forks << ",\"instructions\":" << g_st.steps
      << ",\"decisions\":" << g_st.decides << ",\"schedule_choices\":" << g_st.choices << ",\"obligations\":" << g_st.obligations << ",\"checks\":" << g_st.checks << ",\"infeasible\":" << g_st.infeasible << ",\"bounded\":" << g_st.bounded << ",\"fair_runs\":" << g_fairRuns << ",\"uninit_reads\":" << g_st.uninit << ",\"merged\":" << g_st.merged << ",\"nodes\":" << g_st.nodes << ",\"threads\":" << g_st.maxThreads
      << ",\"queries\":" << g_sstats.queries << ",\"solver_calls\":" << g_sstats.z3 << ",\"domain\":" << g_sstats.domain << ",\"cvc5\":" << g_sstats.cvc5 << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"solver_seconds\":" << g_sstats.secs << ",\"exprs\":" << g_exprs;
    o << ",\"covers\":{"; bool f = true;
    for (auto &c : g_cover) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
    o << "},\"incomplete\":{"; f = true;
    for (auto &c : g_incomplete) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
    o << "},\"violations\":["; f = true;
    for (auto &v : g_viol) {
        o << (f ? "" : ",") << "{\"id\":" << js(v.id) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"stack\":" << js(v.stack) << ",\"count\":" << v.count << ",\"threads\":" << v.threads << ",\"inputs\":[";
        for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << "[" << js(v.inputs[i].first) << "," << v.inputs[i].second << "]";
        o << "],\"sched\":["; for (size_t i = 0; i < v.sched.size(); i++) o << (i ? "," : "") << (int)v.sched[i];
        o << "]}"; f = false;
    }
    o << "],\"witnesses\":["; f = true;
    for (auto &v : g_wit) {
        o << (f ? "" : ",") << "{\"threads\":" << v.threads << ",\"inputs\":[";
        for (size_t i = 0; i < v.in.size(); i++) o << (i ? "," : "") << "[" << js(v.in[i].first) << "," << v.in[i].second << "]";
        o << "],\"sched\":["; for (size_t i = 0; i < v.sched.size(); i++) o << (i ? "," : "") << (int)v.sched[i];
        o << "]}"; f = false;
    }
    o << "],\"functions\":["; f = true;
    std::set<std::string> fn;
    for (auto &d : g_funcs) if (d.second->ran) if (auto *sp = d.first->getSubprogram()) {
        std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
        if (file.find(g_cfg.repo + "/") == 0) fn.insert(d.second->name + " " + file.substr(g_cfg.repo.size() + 1));
    }
    std::set<const DISubprogram *> inl;                     // and what was inlined into the executed functions
    for (auto &d : g_funcs) if (d.second->ran) for (auto &bb : *d.first) for (auto &i : bb) for (const DILocation *l = i.getDebugLoc().get(); l && l->getInlinedAt(); l = l->getInlinedAt()) if (auto *sp = l->getScope()->getSubprogram()) inl.insert(sp);
    for (auto *sp : inl) {
        std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
        if (file.find(g_cfg.repo + "/") == 0) fn.insert((sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) + " " + file.substr(g_cfg.repo.size() + 1));
    }
    for (auto &x : fn) { o << (f ? "" : ",") << js(x); f = false; }
    o << "]}\n";
    if (!g_cfg.out.empty()) { std::ofstream of(g_cfg.out); of << o.str(); } else printf("%s", o.str().c_str());
    fflush(stdout);
    _exit(0);
}
