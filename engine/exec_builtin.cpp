// Models of the C/C++ runtime functions the executed bitcode calls, and the harness API.
#include "engine.h"
#include <functional>
using namespace llvm;
#define BI(name) static BStat name(Inst &in)
static void ret(Inst &in, u64 v) { setv(in.dst, cv(v)); }
static Val argvv(Inst &in, unsigned i) { Val v = argv(in, i); if (v.e && v.e->op == K_CONST) return cv((u64)v.e->val); return v; }
static u64 fresh(u64 n, u8 how, Inst &in) { u64 a = newObject(n, OB_HEAP, true); Obj *o = S->mem.writable(idOf(a)); o->how = how; o->site = &in; return a; }
static DFunc *rtf(const char *n) { Function *f = M->getFunction(n); if (!f || f->isDeclaration()) incomplete(std::string("runtime function missing: ") + n); return dfunc(f); }
static Thread &T() { return S->th[S->cur]; }
static BStat block(WKind k, u64 a) { Thread &t = T(); t.stat = T_BLOCK; t.wk = k; t.wait = a; t.timed = false; t.saved = 0; return B_BLOCK; }

// ---- heap
static u64 hsize(Inst &in, u64 n) { if (n > 0xf00000) incomplete("allocation of " + std::to_string(n) + " bytes"); return n; }
BI(b_malloc) { ret(in, fresh(hsize(in, argc_(in, 0)), 0, in)); return B_DONE; }
BI(b_new) { ret(in, fresh(hsize(in, argc_(in, 0)), 1, in)); return B_DONE; }
BI(b_newa) { ret(in, fresh(hsize(in, argc_(in, 0)), 2, in)); return B_DONE; }
BI(b_calloc) { u64 n = argc_(in, 0) * argc_(in, 1); u64 a = fresh(hsize(in, n), 0, in); memFill(a, cv(0), n); ret(in, a); return B_DONE; }
BI(b_aligned) { ret(in, fresh(hsize(in, argc_(in, 1)), 0, in)); return B_DONE; }
BI(b_posix_memalign) { u64 a = fresh(hsize(in, argc_(in, 2)), 0, in); store64(argc_(in, 0), a); ret(in, 0); return B_DONE; }
static void doFree(u64 p, u8 how) {
    if (!p) return;
    Obj *o = S->mem.get(idOf(p));
    if (!o || o->kind != OB_HEAP || offOf(p) != 0) violate("memory", "free of a pointer that is not a heap block");
    if (o->freed) violate("memory", "double free");
    if (o->how != how) violate("memory", "mismatched allocation and deallocation");
    if (S->race && S->th.size() > 1 && o->size && !S->top().f->exempt) { Obj *w = S->mem.writable(idOf(p)); (void)w; storeMem(cv(p), 1, cv(0), false); }
    freeObj(idOf(p), nullptr);
}
BI(b_free) { doFree(argc_(in, 0), 0); return B_DONE; }
BI(b_del) { doFree(argc_(in, 0), 1); return B_DONE; }
BI(b_dela) { doFree(argc_(in, 0), 2); return B_DONE; }
BI(b_realloc) {
    u64 p = argc_(in, 0), n = hsize(in, argc_(in, 1)); u64 a = fresh(n, 0, in);
    if (p) { Obj *o = S->mem.get(idOf(p)); if (!o || o->freed) violate("memory", "realloc of freed block"); memCopy(a, p, std::min<u64>(n, o->size)); doFree(p, 0); }
    ret(in, a); return B_DONE;
}
// ---- memory and strings
BI(b_memcpy) { u64 n = argc_(in, 2); Val d = argv(in, 0); if (n) { u64 s = concreteAddr(argv(in, 1), n, false), dd = concreteAddr(d, n, true); memCopy(dd, s, n); } setv(in.dst, d); return B_DONE; }
BI(b_memset) { u64 n = argc_(in, 2); Val d = argv(in, 0); Val v = argv(in, 1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) memFill(concreteAddr(d, n, true), v, n); setv(in.dst, d); return B_DONE; }
BI(b_memcmp) {
    u64 n = argc_(in, 2); if (!n) { ret(in, 0); return B_DONE; }
    u64 need = n > 0xf00000 ? n : 1;
    u64 a = concreteAddr(argv(in, 0), need, false), b = concreteAddr(argv(in, 1), need, false);
    bool allc = true; std::vector<Val> x(n), y(n);
    for (u64 i = 0; i < n; i++) {
        x[i] = loadMem(cv(a + i), 1, false); y[i] = loadMem(cv(b + i), 1, false);
        if (x[i].e || y[i].e) allc = false;
        else if (allc && x[i].c != y[i].c) { ret(in, x[i].c < y[i].c ? 0xffffffffu : 1); return B_DONE; }
    }
    if (allc) { ret(in, 0); return B_DONE; }
    E r = mkConst(32, 0);
    for (u64 i = n; i-- > 0;) { E p = toE(x[i], 8), q = toE(y[i], 8); r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst(32, 0xffffffffu), mkConst(32, 1))); }
    setv(in.dst, fromE(r)); return B_DONE;
}
static E eqMem(u64 a, u64 b, u64 n) {
    E r = mkBool(true);
    for (u64 i = 0; i < n; i++) {
        Val x = loadMem(cv(a + i), 1, false), y = loadMem(cv(b + i), 1, false);
        if (!x.e && !y.e) { if (x.c != y.c) return mkBool(false); continue; }
        r = mkAnd(r, mkEq(toE(x, 8), toE(y, 8)));
    }
    return r;
}
BI(b_bcmp) {
    u64 n = argc_(in, 2); if (!n) { ret(in, 0); return B_DONE; }
    E r = eqMem(concreteAddr(argv(in, 0), 1, false), concreteAddr(argv(in, 1), 1, false), n);
    setv(in.dst, fromE(mkIte(r, mkConst(32, 0), mkConst(32, 1)))); return B_DONE;
}
static bool dec(const Val &c) { return c.e ? decide(c.e) : c.c != 0; }
BI(b_strlen) { u64 a = concreteAddr(argv(in, 0), 1, false); u64 n = 0; for (;; n++) { Val v = loadMem(cv(a + n), 1, false); if (dec(icmp(CmpInst::ICMP_EQ, v, cv(0), 8))) break; } ret(in, n); return B_DONE; }
BI(b_strnlen) { u64 a = concreteAddr(argv(in, 0), 1, false); u64 m = argc_(in, 1), n = 0; for (; n < m; n++) { Val v = loadMem(cv(a + n), 1, false); if (dec(icmp(CmpInst::ICMP_EQ, v, cv(0), 8))) break; } ret(in, n); return B_DONE; }
BI(b_memchr) {
    u64 n = argc_(in, 2); if (!n) { ret(in, 0); return B_DONE; }
    u64 a = concreteAddr(argv(in, 0), 1, false); Val c = argv(in, 1); if (c.e) c = fromE(mkExtract(c.e, 0, 8)); else c.c &= 255;
    for (u64 i = 0; i < n; i++) { Val v = loadMem(cv(a + i), 1, false); if (dec(icmp(CmpInst::ICMP_EQ, v, c, 8))) { ret(in, a + i); return B_DONE; } }
    ret(in, 0); return B_DONE;
}
BI(b_strchr) {
    u64 a = concreteAddr(argv(in, 0), 1, false); Val c = argv(in, 1); if (c.e) c = fromE(mkExtract(c.e, 0, 8)); else c.c &= 255;
    for (u64 i = 0;; i++) { Val v = loadMem(cv(a + i), 1, false); if (dec(icmp(CmpInst::ICMP_EQ, v, c, 8))) { ret(in, a + i); return B_DONE; } if (dec(icmp(CmpInst::ICMP_EQ, v, cv(0), 8))) { ret(in, 0); return B_DONE; } }
}
static BStat cmpstr(Inst &in, u64 max) {
    u64 a = concreteAddr(argv(in, 0), 1, false), b = concreteAddr(argv(in, 1), 1, false);
    for (u64 i = 0; i < max; i++) {
        Val x = loadMem(cv(a + i), 1, false), y = loadMem(cv(b + i), 1, false);
        if (!dec(icmp(CmpInst::ICMP_EQ, x, y, 8))) { ret(in, dec(icmp(CmpInst::ICMP_ULT, x, y, 8)) ? 0xffffffffu : 1); return B_DONE; }
        if (dec(icmp(CmpInst::ICMP_EQ, x, cv(0), 8))) break;
    }
    ret(in, 0); return B_DONE;
}
BI(b_strcmp) { return cmpstr(in, ~0ull); }
BI(b_strncmp) { return cmpstr(in, argc_(in, 2)); }
// ---- exceptions
struct TI { std::vector<u64> bases; bool bad = false; };
static u64 strippedAddr(const Constant *c) { return globalAddr(cast<GlobalVariable>(c->stripPointerCasts())); }
static std::map<u64, const GlobalVariable *> &gByAddr() {
    static std::map<u64, const GlobalVariable *> m;
    if (m.empty()) for (auto &g : M->globals()) if (g.getName().starts_with("_ZTI")) m[globalAddr(&g)] = &g;
    return m;
}
static std::string tiName(u64 a) { auto &m = gByAddr(); auto it = m.find(a); return it == m.end() ? "?" : it->second->getName().str(); }
static bool derives(u64 t, u64 c) {
    if (t == c) return true;
    auto &m = gByAddr(); auto it = m.find(t);
    if (it == m.end() || !it->second->hasInitializer()) return false;
    auto *cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
    if (!cs) return false;
    if (cs->getNumOperands() == 3 && cs->getOperand(2)->getType()->isPointerTy()) return derives(strippedAddr(cs->getOperand(2)), c);
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
        if (derives(strippedAddr(cs->getOperand(i)), c)) {
            i64 off = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue() >> 8;
            if (off) incomplete("exception base at non-zero offset");
            return true;
        }
    }
    return false;
}
static int match(const LandingPadInst *lp, u64 tinfo, u64 &sel) {        // 0 none 1 cleanup 2 handler
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
            auto *c = lp->getClause(i)->stripPointerCasts();
            if (isa<ConstantPointerNull>(c)) { sel = 0x7ffffffe; return 2; }
            u64 ca = globalAddr(cast<GlobalVariable>(c));
            if (derives(tinfo, ca)) { sel = idOf(ca) & 0x7fffffff; return 2; }
        } else { sel = 0xffffffff; return 2; }
    }
    sel = 0;
    return lp->isCleanup() ? 1 : 0;
}
static const LandingPadInst *padOf(Frame &f) {
    Inst &ci = f.f->bb[f.bb].in[f.ip];
    if (ci.op != I_CALL || ci.t1 < 0) return nullptr;
    DBB &b = f.f->bb[ci.t1];
    return cast<LandingPadInst>(b.in[b.lpad].I);
}
void raiseExc(u64 ex) {
    Thread &t = T();
    u64 ti = S->exc[ex].tinfo;
    bool found = false;
    for (size_t i = t.st.size(); i-- > 0 && !found;) {
        auto *lp = padOf(*t.st[i]); u64 sel;
        if (lp && match(lp, ti, sel) == 2) found = true;
    }
    if (!found) violate("uncaught-exception", "std::terminate: no handler for exception of type " + tiName(ti));
    unwind(ex, false);
}
void unwind(u64 ex, bool resume) {
    Thread &t = T();
    u64 ti = S->exc[ex].tinfo;
    bool first = resume;
    while (!t.st.empty()) {
        Frame &f = S->top();
        if (!first) {
            auto *lp = padOf(f); u64 sel;
            if (lp && match(lp, ti, sel)) { t.pendExc = ex; t.pendSel = sel; branchTo(f.f->bb[f.bb].in[f.ip].t1); return; }
        }
        first = false;
        std::shared_ptr<Frame> fr = t.st.back();
        popFrame();
        if (fr->plain) finishCallback(true, *fr);
    }
    violate("uncaught-exception", "std::terminate: exception of type " + tiName(ti) + " escapes a thread");
}
BI(b_cxa_alloc) { u64 a = fresh(argc_(in, 0), 3, in); S->exc[a] = {0, 0, 1, false}; ret(in, a); return B_DONE; }
BI(b_cxa_free) { u64 a = argc_(in, 0); S->exc.erase(a); freeObj(idOf(a), nullptr); return B_DONE; }
BI(b_cxa_throw) { u64 a = argc_(in, 0); auto &x = S->exc[a]; x.tinfo = argc_(in, 1); x.dtor = argc_(in, 2); T().uncaught++; raiseExc(a); return B_JUMPED; }
BI(b_cxa_initprim) { u64 a = argc_(in, 0); auto &x = S->exc[a]; x.tinfo = argc_(in, 1); x.dtor = argc_(in, 2); x.refs = 0; ret(in, a); return B_DONE; }
static BStat decRef(Inst &in, u64 a) {
    auto it = S->exc.find(a); if (it == S->exc.end()) return B_DONE;
    if (--it->second.refs > 0) return B_DONE;
    u64 d = it->second.dtor; S->exc.erase(it);
    if (!d) { freeObj(idOf(a), nullptr); return B_DONE; }
    auto f = g_funcByAddr.find(d); if (f == g_funcByAddr.end() || f->second->F->isDeclaration()) { freeObj(idOf(a), nullptr); return B_DONE; }
    pushCallback(f->second, {a}); S->top().freeOnRet = a; return B_JUMPED;
}
BI(b_begin_catch) {
    u64 a = argc_(in, 0); Thread &t = T();
    if (!t.caught.empty() && t.caught.back().addr == a) t.caught.back().count++; else t.caught.push_back({a, 1});
    if (S->exc[a].rethrown) S->exc[a].rethrown = false;
    if (t.uncaught) t.uncaught--;
    ret(in, a); return B_DONE;
}
BI(b_end_catch) {
    Thread &t = T(); if (t.caught.empty()) return B_DONE;
    Caught &c = t.caught.back(); u64 a = c.addr;
    if (--c.count > 0) return B_DONE;
    t.caught.pop_back();
    auto it = S->exc.find(a);
    if (it != S->exc.end() && it->second.rethrown) return B_DONE;
    return decRef(in, a);
}
BI(b_rethrow) {
    Thread &t = T(); if (t.caught.empty()) violate("terminate", "rethrow with no exception in flight");
    u64 a = t.caught.back().addr; S->exc[a].rethrown = true; t.uncaught++; raiseExc(a); return B_JUMPED;
}
BI(b_get_exc_ptr) { ret(in, argc_(in, 0)); return B_DONE; }
BI(b_uncaught) { ret(in, T().uncaught); return B_DONE; }
BI(b_uncaughtb) { ret(in, T().uncaught > 0); return B_DONE; }
BI(b_terminate) { violate("terminate", "std::terminate called"); }
BI(b_abort) { violate("abort", "abort called"); }
BI(b_pure) { violate("abort", "pure virtual call"); }
BI(b_unexpected) { violate("terminate", "unexpected exception"); }
BI(b_stackfail) { violate("abort", "runtime check failed"); }
// exception_ptr: one pointer member
BI(b_cur_exc) { u64 a = T().caught.empty() ? 0 : T().caught.back().addr; if (a) S->exc[a].refs++; store64(argc_(in, 0), a); return B_DONE; }
BI(b_ep_addref) { u64 a = load64(argc_(in, 0)); if (a) S->exc[a].refs++; return B_DONE; }
BI(b_ep_release) { u64 p = argc_(in, 0); u64 a = load64(p); if (!a) return B_DONE; store64(p, 0); return decRef(in, a); }
BI(b_ep_ctor) { u64 a = argc_(in, 1); store64(argc_(in, 0), a); if (a) S->exc[a].refs++; return B_DONE; }
BI(b_ep_copy) { u64 a = load64(argc_(in, 1)); store64(argc_(in, 0), a); if (a) S->exc[a].refs++; return B_DONE; }
BI(b_ep_dtor) { u64 a = load64(argc_(in, 0)); if (!a) return B_DONE; return decRef(in, a); }
BI(b_ep_swap) { u64 p = argc_(in, 0), q = argc_(in, 1); u64 a = load64(p), b = load64(q); store64(p, b); store64(q, a); return B_DONE; }
BI(b_ep_rethrow) { u64 a = load64(argc_(in, 0)); if (!a) violate("terminate", "rethrow of null exception_ptr"); S->exc[a].refs++; T().uncaught++; raiseExc(a); return B_JUMPED; }
BI(b_guard_acq) {
    u64 g = argc_(in, 0); u64 v = load64(g) & 0xffff;
    if (v & 1) { hbAcquire(g); ret(in, 0); return B_DONE; }
    if (v & 0x100) return block(W_ONCE, g);
    storeMem(cv(g), 2, cv(0x100), true); ret(in, 1); return B_DONE;
}
BI(b_guard_rel) { u64 g = argc_(in, 0); storeMem(cv(g), 2, cv(1), true); hbRelease(g); return B_DONE; }
BI(b_guard_abort) { storeMem(cv(argc_(in, 0)), 2, cv(0), true); return B_DONE; }
BI(b_atexit) { S->atexit.push_back({argc_(in, 0), argc_(in, 1)}); ret(in, 0); return B_DONE; }
BI(b_tatexit) { T().atexit.push_back({argc_(in, 0), argc_(in, 1)}); ret(in, 0); return B_DONE; }
BI(b_dyncast) {
    u64 p = argc_(in, 0), dst = argc_(in, 2);
    if (!p) { ret(in, 0); return B_DONE; }
    u64 vt = load64(p); i64 top = (i64)load64(vt - 16); u64 ti = load64(vt - 8);
    if (!derives(ti, dst)) ret(in, 0); else ret(in, p + top);     // single, non-virtual inheritance
    return B_DONE;
}
// ---- threads
BI(b_mutex_lock) {
    u64 m = argc_(in, 0); auto &x = S->mtx[m];
    bool rec = load32(m + 16) == 1;
    if (x.owner < 0) { x.owner = S->cur; x.depth = 1; hbAcquire(m); ret(in, 0); return B_DONE; }
    if (x.owner == S->cur) { if (rec) { x.depth++; ret(in, 0); return B_DONE; } violate("deadlock", "thread locks a mutex it already holds"); }
    return block(W_MUTEX, m);
}
BI(b_mutex_try) {
    u64 m = argc_(in, 0); auto &x = S->mtx[m]; bool rec = load32(m + 16) == 1;
    if (x.owner < 0) { x.owner = S->cur; x.depth = 1; hbAcquire(m); ret(in, 0); }
    else if (x.owner == S->cur && rec) { x.depth++; ret(in, 0); } else ret(in, 16);
    return B_DONE;
}
static void unlockM(u64 m) {
    auto &x = S->mtx[m];
    if (x.owner != S->cur) violate("lock", "unlock of a mutex the thread does not hold");
    if (--x.depth == 0) { x.owner = -1; hbRelease(m); }
}
BI(b_mutex_unlock) { load32(argc_(in, 0) + 16); unlockM(argc_(in, 0)); ret(in, 0); return B_DONE; }
BI(b_cv_ctor) { memFill(argc_(in, 0), cv(0), 48); return B_DONE; }
BI(b_ok) { ret(in, 0); return B_DONE; }
// a wait that timed out ends at its deadline
static void reachDeadline(bool mono, u64 abs) {
    static const GlobalVariable *mg = M->getGlobalVariable("rt_steady_ns", true), *rg = M->getGlobalVariable("_ZN3env6now_nsE", true);
    const GlobalVariable *g = mono ? mg : rg; if (!g) return;
    i64 d = (i64)load64(abs) * 1000000000 + (i64)load64(abs + 8), n = (i64)load64(globalAddr(g));
    if (d > n) store64(globalAddr(g), (u64)d);
}
static BStat condWait(Inst &in, u64 c, u64 m, bool timed) {
    Thread &t = T();
    if (t.phase == 0) {
        load32(c);                                       // the object must be alive
        unlockM(m);
        t.phase = 1; t.timedOut = false; t.stat = T_BLOCK; t.wk = W_COND; t.wait = c; t.timed = timed; t.saved = m;
        return B_BLOCK;
    }
    auto &x = S->mtx[m];
    if (x.owner >= 0) return block(W_MUTEX, m);          // keeps phase 1
    x.owner = S->cur; x.depth = 1; hbAcquire(m);
    t.phase = 0; t.timed = false; t.saved = 0;
    if (t.timedOut && timed) { bool clk = in.argLay.size() >= 4; reachDeadline(clk && argc_(in, 2) == 1, argc_(in, clk ? 3 : 2)); }
    ret(in, t.timedOut ? 110 : 0); t.timedOut = false;
    return B_DONE;
}
BI(b_cv_wait) { return condWait(in, argc_(in, 0), load64(argc_(in, 1)), false); }
BI(b_cond_wait) { return condWait(in, argc_(in, 0), argc_(in, 1), false); }
BI(b_cond_timed) { return condWait(in, argc_(in, 0), argc_(in, 1), true); }
static void wakeCond(u64 c, bool all) {
    load32(c);
    std::vector<int> w;
    for (int i = 0; i < (int)S->th.size(); i++) if (S->th[i].stat == T_BLOCK && S->th[i].wk == W_COND && S->th[i].wait == c) w.push_back(i);
    if (w.empty()) return;
    if (!all && w.size() > 1) { int k = schedChoice(w.size(), false); w = {w[k]}; }
    for (int i : w) { Thread &t = S->th[i]; t.wk = W_MUTEX; t.wait = t.saved; t.timed = false; }
}
BI(b_notify_one) { wakeCond(argc_(in, 0), false); ret(in, 0); return B_DONE; }
BI(b_notify_all) { wakeCond(argc_(in, 0), true); ret(in, 0); return B_DONE; }
BI(b_once) {
    u64 o = argc_(in, 0); u32 v = load32(o);
    if (v == 2) { hbAcquire(o); ret(in, 0); return B_DONE; }
    if (v == 1) return block(W_ONCE, o);
    storeMem(cv(o), 4, cv(1), true);
    auto f = g_funcByAddr.find(argc_(in, 1)); if (f == g_funcByAddr.end()) incomplete("pthread_once");
    pushCallback(f->second, {}); Frame &fr = S->top(); fr.onceAddr = o; fr.hasRetv = true; fr.retv = cv(0);
    return B_JUMPED;
}
BI(b_start_thread) {
    u64 up = argc_(in, 1); u64 st = load64(up); store64(up, 0);
    int id = newThread(rtf("rt_thread_entry"), st);
    store64(argc_(in, 0), id + 1); return B_DONE;
}
BI(b_join) {
    u64 p = argc_(in, 0); u64 id = load64(p);
    if (!id) violate("uncaught-exception", "join of a thread that is not joinable");
    id--;
    if (S->th[id].stat != T_DONE) return block(W_JOIN, id);
    for (int i = 0; i < MAXT; i++) T().vc[i] = std::max(T().vc[i], S->th[id].vc[i]);
    store64(p, 0); return B_DONE;
}
BI(b_detach) { u64 p = argc_(in, 0); u64 id = load64(p); if (!id) violate("uncaught-exception", "detach"); S->th[id - 1].detached = true; store64(p, 0); return B_DONE; }
BI(b_self) { ret(in, S->cur + 1); return B_DONE; }
BI(b_hwconc) { ret(in, 4); return B_DONE; }
BI(b_yield) {
    Thread &t = T();
    if (S->th.size() > 1 && t.phase == 0) { t.phase = 7; t.schedDone = false; yieldPoint(); return B_BLOCK; }
    t.phase = 0; ret(in, 0); return B_DONE;
}
BI(b_sem_init) { memFill(argc_(in, 0), cv(0), 32); S->sems[argc_(in, 0)] = (i64)argc_(in, 2); ret(in, 0); return B_DONE; }
BI(b_sem_wait) { u64 s = argc_(in, 0); if (S->sems[s] <= 0) return block(W_SEM, s); S->sems[s]--; hbAcquire(s); ret(in, 0); return B_DONE; }
static void setErrno(u32 v);
BI(b_sem_try) { u64 s = argc_(in, 0); if (S->sems[s] <= 0) { setErrno(11); ret(in, 0xffffffffu); return B_DONE; } S->sems[s]--; hbAcquire(s); ret(in, 0); return B_DONE; }
BI(b_sem_timed) {
    u64 s = argc_(in, 0); Thread &t = T();
    if (S->sems[s] > 0) { S->sems[s]--; hbAcquire(s); t.timedOut = false; t.timed = false; ret(in, 0); return B_DONE; }
    if (t.timedOut) { bool clk = in.argLay.size() >= 3; reachDeadline(clk && argc_(in, 1) == 1, argc_(in, clk ? 2 : 1)); t.timedOut = false; setErrno(110); ret(in, 0xffffffffu); return B_DONE; }
    block(W_SEM, s); t.timed = true; return B_BLOCK;
}
BI(b_sem_post) { u64 s = argc_(in, 0); load32(s); S->sems[s]++; hbRelease(s); ret(in, 0); return B_DONE; }
// __atomic_futex_unsigned_base
BI(b_futex_wait) {
    Thread &t = T();                                     // (this, addr, val, has_timeout, s, ns) -> bool
    u64 a = argc_(in, 1); u32 val = (u32)argc_(in, 2); bool to = argc_(in, 3);
    if (t.phase == 1) { t.phase = 0; bool o = t.timedOut; t.timedOut = false; t.timed = false; ret(in, !o); return B_DONE; }
    Val v = loadMem(cv(a), 4, true);
    if ((u32)concr(v) != val) { ret(in, 1); return B_DONE; }
    block(W_FUTEX, a); T().timed = to; T().phase = 1; return B_BLOCK;
}
BI(b_futex_wake) { u64 a = argc_(in, 0); for (auto &t : S->th) if (t.stat == T_BLOCK && t.wk == W_FUTEX && t.wait == a) { t.wk = W_YIELD; t.timed = false; } return B_DONE; }
static u64 errnoAddr() {
    static const GlobalVariable *g = M->getGlobalVariable("rt_errno", true);
    if (!g) incomplete("rt_errno missing");
    extern u64 tlsAddr(const GlobalVariable *);
    return g->isThreadLocal() ? tlsAddr(g) : globalAddr(g);
}
static void setErrno(u32 v) { u64 a = errnoAddr(); rawStore(idOf(a), offOf(a), 4, cv(v)); }
BI(b_errno) { ret(in, errnoAddr()); return B_DONE; }
// ---- harness API
static std::string occName(const std::string &n) { int k = S->occ[n]++; return n + "#" + std::to_string(k); }
static BStat symN(Inst &in, unsigned w) { setv(in.dst, {freshVar(w, occName(cstr(argc_(in, 0))), 0, w >= 64 ? ~0ull : (1ull << w) - 1, true), 0}); return B_DONE; }
BI(s_u8) { return symN(in, 8); }
BI(s_u16) { return symN(in, 16); }
BI(s_u32) { return symN(in, 32); }
BI(s_u64) { return symN(in, 64); }
BI(s_range) {
    u64 lo = argc_(in, 1), hi = argc_(in, 2);
    std::string n = occName(cstr(argc_(in, 0)));
    if (lo > hi) throw PathEnd{};
    if (lo == hi) { ret(in, lo); return B_DONE; }
    unsigned w = 1; while (w < 64 && (hi >> w)) w++;
    E v = freshVar(w, n, lo, hi, true);
    setv(in.dst, {mkZext(v, 64), 0}); return B_DONE;
}
BI(s_choose) {
    Thread &t = T(); (void)t;
    u64 lo = argc_(in, 1), hi = argc_(in, 2);
    std::string b = cstr(argc_(in, 0)); std::string n = b + "#" + std::to_string(S->occ[b]);
    if (lo > hi) throw PathEnd{};
    E v; u64 r = lo;
    if (lo < hi) {
        v = mkVar(64, n, lo, hi);
        bool have = false; for (u32 i : S->inputs) if (i == v->ext) have = true;
        if (!have) v = freshVar(64, n, lo, hi, true);
        r = concretize(v);
    }
    S->occ[b]++; ret(in, r); return B_DONE;
}
BI(s_bytes) {
    u64 p = argc_(in, 1), n = argc_(in, 2); std::string nm = occName(cstr(argc_(in, 0)));
    for (u64 i = 0; i < n; i++) storeMem(cv(p + i), 1, {freshVar(8, nm + "[" + std::to_string(i) + "]", 0, 255, true), 0}, false);
    return B_DONE;
}
static E condOf(Inst &in, unsigned i) { Val v = argv(in, i); unsigned w = in.argLay[i]->leaves[0].w; return w == 1 ? toE(v, 1) : mkNe(toE(v, w), mkConst(w, 0)); }
BI(s_assume) { assume(condOf(in, 0)); return B_DONE; }
BI(s_check) { std::string id = cstr(argc_(in, 1)); g_st.checks++; mustHold(condOf(in, 0), "check:" + id, "assertion '" + id + "' fails"); return B_DONE; }
BI(s_fail) { violate("check:" + cstr(argc_(in, 0)), "reached failure point"); }
BI(s_cover) { g_cover[cstr(argc_(in, 0))]++; return B_DONE; }
BI(s_concretize) { ret(in, argc_(in, 0)); return B_DONE; }
BI(s_param) { std::string n = cstr(argc_(in, 0)); auto it = g_cfg.params.find(n); ret(in, it == g_cfg.params.end() ? argc_(in, 1) : it->second); return B_DONE; }
BI(s_config) {
    std::string n = cstr(argc_(in, 0)); i64 v = (i64)argc_(in, 1);
    if (n == "preempt") S->maxPre = v; else if (n == "timeouts") S->timeouts = v; else if (n == "forced_timeouts") S->forcedTimeouts = v; else if (n == "spurious") S->spurious = v;
    else if (n == "race") S->race = v; else if (n == "spin") S->spinLimit = v; else if (n == "merge") S->merge = v; else if (n == "det") S->det = v; else if (n == "addr") S->addr = v; else if (n == "clz") S->clz = v; else if (n == "steps") S->stepLimit = v;
    else incomplete("sym_config " + n);
    return B_DONE;
}
BI(s_end) { S->ended = true; return B_JUMPED; }
BI(s_unsupported) { incomplete("environment model: " + cstr(argc_(in, 0))); }
BI(s_abandon) { throw PathEnd{}; }
BI(s_thread) { auto f = g_funcByAddr.find(argc_(in, 0)); if (f == g_funcByAddr.end()) incomplete("sym_thread"); int id = newThread(f->second, argc_(in, 1)); ret(in, id); return B_DONE; }
BI(s_join) { u64 id = argc_(in, 0); if (S->th[id].stat != T_DONE) return block(W_JOIN, id); for (int i = 0; i < MAXT; i++) T().vc[i] = std::max(T().vc[i], S->th[id].vc[i]); return B_DONE; }
BI(s_done) { ret(in, S->th[argc_(in, 0)].stat == T_DONE); return B_DONE; }
BI(s_nthreads) { ret(in, S->th.size()); return B_DONE; }
BI(s_is_sym) { ret(in, 1); return B_DONE; }
BI(s_eq_mem) { u64 n = argc_(in, 2); if (!n) { ret(in, 1); return B_DONE; } E r = eqMem(argc_(in, 0), argc_(in, 1), n); setv(in.dst, fromE(mkZext(r, 32))); return B_DONE; }
BI(s_note) { if (g_cfg.verbose) { Val v = argvv(in, 1); fprintf(stderr, "note[%d] %s = %s\n", S->cur, cstr(argc_(in, 0)).c_str(), v.e ? exprStr(v.e, 12).c_str() : std::to_string((i64)v.c).c_str()); } return B_DONE; }
BI(s_note_str) { if (g_cfg.verbose) { u64 p = argc_(in, 1), n = argc_(in, 2); std::string r; for (u64 i = 0; i < n; i++) { Val v = loadMem(cv(p + i), 1, false); if (v.e) r += '?'; else r += (char)v.c; } fprintf(stderr, "note[%d] %s = \"%s\"\n", S->cur, cstr(argc_(in, 0)).c_str(), r.c_str()); } return B_DONE; }
BI(s_alive) { u64 a = argc_(in, 0); Obj *o = S->mem.get(idOf(a)); ret(in, o && !o->freed); return B_DONE; }
BI(s_run_atexit) {
    if (S->atexit.empty()) return B_DONE;
    auto a = S->atexit.back(); S->atexit.pop_back();
    auto it = g_funcByAddr.find(a[0]); if (it == g_funcByAddr.end()) incomplete("atexit");
    pushCallback(it->second, {a[1]}); S->top().again = true; return B_JUMPED;
}
BI(s_run_exit) {                                      // what exit() does: thread-local objects of this thread, then static ones
    auto &l = T().atexit.empty() ? S->atexit : T().atexit;
    if (l.empty()) return B_DONE;
    auto a = l.back(); l.pop_back();
    auto it = g_funcByAddr.find(a[0]); if (it == g_funcByAddr.end()) incomplete("exit");
    pushCallback(it->second, {a[1]}); S->top().again = true; return B_JUMPED;
}
BI(s_mutex_held) { auto it = S->mtx.find(argc_(in, 0)); ret(in, it != S->mtx.end() && it->second.owner >= 0); return B_DONE; }
BI(s_ulock_none) { bool any = false; for (auto &p : S->mtx) if (p.second.owner == S->cur) any = true; ret(in, any); return B_DONE; }

struct Ent { const char *n; BFn f; bool vis; };
static const Ent tab[] = {
    {"malloc", b_malloc, 0}, {"calloc", b_calloc, 0}, {"realloc", b_realloc, 0}, {"free", b_free, 0}, {"aligned_alloc", b_aligned, 0}, {"posix_memalign", b_posix_memalign, 0},
    {"_Znwm", b_new, 0}, {"_Znam", b_newa, 0}, {"_ZnwmRKSt9nothrow_t", b_new, 0}, {"_ZnamRKSt9nothrow_t", b_newa, 0}, {"_ZnwmSt11align_val_t", b_new, 0}, {"_ZnamSt11align_val_t", b_newa, 0},
    {"_ZdlPv", b_del, 0}, {"_ZdlPvm", b_del, 0}, {"_ZdaPv", b_dela, 0}, {"_ZdaPvm", b_dela, 0}, {"_ZdlPvSt11align_val_t", b_del, 0}, {"_ZdlPvmSt11align_val_t", b_del, 0}, {"_ZdaPvSt11align_val_t", b_dela, 0}, {"_ZdlPvRKSt9nothrow_t", b_del, 0},
    {"memcpy", b_memcpy, 0}, {"memmove", b_memcpy, 0}, {"memset", b_memset, 0}, {"memcmp", b_memcmp, 0}, {"bcmp", b_bcmp, 0}, {"strlen", b_strlen, 0}, {"strnlen", b_strnlen, 0}, {"memchr", b_memchr, 0}, {"strchr", b_strchr, 0},
    {"strcmp", b_strcmp, 0}, {"strncmp", b_strncmp, 0},
    {"__cxa_allocate_exception", b_cxa_alloc, 0}, {"__cxa_free_exception", b_cxa_free, 0}, {"__cxa_throw", b_cxa_throw, 0}, {"__cxa_init_primary_exception", b_cxa_initprim, 0}, {"__cxa_begin_catch", b_begin_catch, 0},
    {"__cxa_end_catch", b_end_catch, 0}, {"__cxa_rethrow", b_rethrow, 0}, {"__cxa_get_exception_ptr", b_get_exc_ptr, 0}, {"_ZSt19uncaught_exceptionsv", b_uncaught, 0}, {"_ZSt18uncaught_exceptionv", b_uncaughtb, 0},
    {"_ZSt9terminatev", b_terminate, 0}, {"abort", b_abort, 0}, {"__cxa_pure_virtual", b_pure, 0}, {"__cxa_call_unexpected", b_unexpected, 0}, {"__assert_fail", b_abort, 0}, {"__cxa_call_terminate", b_terminate, 0},
    {"_ZSt17current_exceptionv", b_cur_exc, 0}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_ep_addref, 0}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_ep_release, 0}, {"_ZNSt15__exception_ptr13exception_ptrC1EPv", b_ep_ctor, 0},
    {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", b_ep_copy, 0}, {"_ZNSt15__exception_ptr13exception_ptrD1Ev", b_ep_dtor, 0}, {"_ZNSt15__exception_ptr13exception_ptr4swapERS0_", b_ep_swap, 0}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_ep_rethrow, 0},
    {"__cxa_guard_acquire", b_guard_acq, 0}, {"__cxa_guard_release", b_guard_rel, 0}, {"__cxa_guard_abort", b_guard_abort, 0}, {"__cxa_atexit", b_atexit, 0}, {"__cxa_thread_atexit", b_tatexit, 0}, {"__dynamic_cast", b_dyncast, 0},
    {"pthread_mutex_lock", b_mutex_lock, 1}, {"pthread_mutex_trylock", b_mutex_try, 1}, {"pthread_mutex_unlock", b_mutex_unlock, 0}, {"pthread_mutex_init", b_ok, 0}, {"pthread_mutex_destroy", b_ok, 0},
    {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_cv_wait, 1}, {"pthread_cond_wait", b_cond_wait, 1}, {"pthread_cond_timedwait", b_cond_timed, 1}, {"pthread_cond_clockwait", b_cond_timed, 1},
    {"_ZNSt18condition_variable10notify_oneEv", b_notify_one, 1}, {"_ZNSt18condition_variable10notify_allEv", b_notify_all, 1}, {"pthread_cond_signal", b_notify_one, 1}, {"pthread_cond_broadcast", b_notify_all, 1},
    {"_ZNSt18condition_variableC1Ev", b_cv_ctor, 0}, {"_ZNSt18condition_variableD1Ev", b_ok, 0}, {"pthread_cond_destroy", b_ok, 0}, {"pthread_once", b_once, 1},
    {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", b_start_thread, 0}, {"_ZNSt6thread4joinEv", b_join, 0}, {"_ZNSt6thread6detachEv", b_detach, 0}, {"pthread_self", b_self, 0}, {"_ZNSt6thread20hardware_concurrencyEv", b_hwconc, 0},
    {"sched_yield", b_yield, 0}, {"nanosleep", b_yield, 0}, {"usleep", b_yield, 0}, {"clock_nanosleep", b_yield, 0},
    {"sem_init", b_sem_init, 0}, {"sem_destroy", b_ok, 0}, {"sem_wait", b_sem_wait, 1}, {"sem_trywait", b_sem_try, 1}, {"sem_timedwait", b_sem_timed, 1}, {"sem_clockwait", b_sem_timed, 1}, {"sem_post", b_sem_post, 1},
    {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", b_futex_wait, 1},
    {"_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", b_futex_wait, 1},
    {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", b_futex_wake, 0}, {"__errno_location", b_errno, 0},
    {"sym_u8", s_u8, 0}, {"sym_u16", s_u16, 0}, {"sym_u32", s_u32, 0}, {"sym_u64", s_u64, 0}, {"sym_range", s_range, 0}, {"sym_choose", s_choose, 0}, {"sym_bytes", s_bytes, 0}, {"sym_assume", s_assume, 0}, {"sym_check", s_check, 0},
    {"sym_fail", s_fail, 0}, {"sym_cover", s_cover, 0}, {"sym_concretize", s_concretize, 0}, {"sym_param", s_param, 0}, {"sym_config", s_config, 0}, {"sym_end", s_end, 0}, {"sym_abandon", s_abandon, 0} , {"sym_unsupported", s_unsupported, 0}, {"sym_thread", s_thread, 0},
    {"sym_join", s_join, 0}, {"sym_done", s_done, 0}, {"sym_nthreads", s_nthreads, 0}, {"sym_is_symbolic", s_is_sym, 0}, {"sym_eq_mem", s_eq_mem, 0}, {"sym_note", s_note, 0}, {"sym_note_str", s_note_str, 0}, {"sym_alive", s_alive, 0},
    {"sym_run_atexit", s_run_atexit, 0}, {"sym_run_exit", s_run_exit, 0}, {"sym_mutex_held", s_mutex_held, 0}, {"sym_holds_lock", s_ulock_none, 0},
};
BFn findBuiltin(const std::string &n, bool &vis) {
    static std::unordered_map<std::string, const Ent *> m;
    if (m.empty()) for (auto &e : tab) m[e.n] = &e;
    auto it = m.find(n); if (it == m.end()) return nullptr;
    vis = it->second->vis; return it->second->f;
}
