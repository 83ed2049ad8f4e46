// Symbolic executor for LLVM IR: decoding, values, memory, main loop.
#include "engine.h"
using namespace llvm;

Module *M; const DataLayout *DL;
State *S;
size_t g_memBytes;
std::deque<State *> g_work;
Config g_cfg;
Stats g_st;
std::vector<Violation> g_viol;
std::map<std::string, u64> g_cover;
std::map<std::string, u64> g_incomplete;
std::unordered_map<const Function *, DFunc *> g_funcs;
std::map<u64, DFunc *> g_funcByAddr;
std::unordered_map<const GlobalVariable *, u64> g_gaddr;
std::map<std::string, u64> g_externAddr;
std::vector<const Inst *> g_sites{nullptr};

// ---------------------------------------------------------------- types
static std::unordered_map<Type *, TypeLay *> g_lays;
static void flat(Type *t, u64 off, TypeLay &L) {
    if (t->isIntegerTy()) { u32 w = t->getIntegerBitWidth(); if (w > 128) L.ok = false; L.leaves.push_back({w, (u32)off, (w + 7) / 8, false, false}); }
    else if (t->isPointerTy()) L.leaves.push_back({64, (u32)off, 8, false, true});
    else if (t->isFloatTy()) L.leaves.push_back({32, (u32)off, 4, true, false});
    else if (t->isDoubleTy()) L.leaves.push_back({64, (u32)off, 8, true, false});
    else if (t->isX86_FP80Ty()) { L.ok = false; L.leaves.push_back({80, (u32)off, 10, true, false}); }
    else if (auto *s = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + (u64)sl->getElementOffset(i), L);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        if (a->getNumElements() > 4096) { L.ok = false; return; }
        for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, L);
    } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * es, L);
    } else if (!t->isVoidTy()) L.ok = false;
}
const TypeLay *layOf(Type *t) {
    TypeLay *&l = g_lays[t];
    if (!l) { l = new TypeLay; flat(t, 0, *l); if (t->isSized()) l->size = DL->getTypeAllocSize(t); }
    return l;
}
static u32 subSlots(Type *t, ArrayRef<unsigned> idx, u32 &count) {      // slot offset of an aggregate member
    u32 off = 0;
    for (unsigned k : idx) {
        if (auto *s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) off += layOf(s->getElementType(i))->leaves.size(); t = s->getElementType(k); }
        else { auto *a = cast<ArrayType>(t); off += k * layOf(a->getElementType())->leaves.size(); t = a->getElementType(); }
    }
    count = layOf(t)->leaves.size();
    return off;
}

// ---------------------------------------------------------------- constants
u64 funcAddr(const Function *F);
static void flatConst(const Constant *c, std::vector<Val> &out);
static i64 gepConstOff(const GEPOperator *g) { APInt o(64, 0); if (!g->accumulateConstantOffset(*DL, o)) { fprintf(stderr, "gep constant\n"); abort(); } return o.getSExtValue(); }
u64 globalAddr(const GlobalVariable *g) { auto it = g_gaddr.find(g); if (it == g_gaddr.end()) { fprintf(stderr, "no global %s\n", g->getName().str().c_str()); abort(); } return it->second; }
static u64 constScalar(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLoBits(64).trunc(std::min(64u, ci->getBitWidth())).getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return b.getLoBits(64).trunc(std::min(64u, b.getBitWidth())).getZExtValue(); }
    if (auto *f = dyn_cast<Function>(c)) return funcAddr(f);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: return constScalar(e->getOperand(0)) + gepConstOff(cast<GEPOperator>(e));
        case Instruction::IntToPtr: case Instruction::BitCast: return constScalar(e->getOperand(0));
        case Instruction::PtrToInt: { unsigned w = e->getType()->getIntegerBitWidth(); u64 v = constScalar(e->getOperand(0)); return w < 64 ? v & (u64)maskw(w) : v; }
        case Instruction::Trunc: return constScalar(e->getOperand(0)) & (u64)maskw(e->getType()->getIntegerBitWidth());
        case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & (u64)maskw(e->getType()->getIntegerBitWidth());
        case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & (u64)maskw(e->getType()->getIntegerBitWidth());
        case Instruction::ICmp: { auto p = e->getPredicate(); u64 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1));
            if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; break; }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); abort();
}
static void flatConst(const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType();
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            u128 v = ci->getValue().getLoBits(64).trunc(64).getZExtValue();
            v |= (u128)ci->getValue().lshr(64).trunc(64).getZExtValue() << 64;
            out.push_back({mkConst(t->getIntegerBitWidth(), v), 0});
        } else out.push_back({mkConst(t->getIntegerBitWidth(), 0), 0});
        return;
    }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (auto &l : layOf(t)->leaves) out.push_back(l.w > 64 ? Val{mkConst(l.w, 0), 0} : cv(0)); return; }
        if (auto *d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) flatConst(d->getElementAsConstant(i), out); return; }
        for (unsigned i = 0; i < c->getNumOperands(); i++) flatConst(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    out.push_back(cv(constScalar(c)));
}
static void initBytes(const Constant *c, u8 *p) {                  // write an initializer image
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = d->getRawDataValues(); memcpy(p, raw.data(), raw.size()); return;
    }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), p + (u64)sl->getElementOffset(i));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        Type *et = t->isArrayTy() ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
        u64 es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<Constant>(c->getOperand(i)), p + i * es);
        return;
    }
    if (t->isX86_FP80Ty()) { auto b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(p, b.getRawData(), 10); return; }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { memcpy(p, cast<ConstantInt>(c)->getValue().getRawData(), (t->getIntegerBitWidth() + 7) / 8); return; }
    u64 v = constScalar(c); memcpy(p, &v, DL->getTypeStoreSize(t));
}
u64 newObject(u64 size, ObjKind k, bool uninit) {
    if (size > 0xff0000) incomplete("object larger than 16MB");
    u64 id;
    if (S->merge && S->th.size() > 1) {             // ids depend only on the thread's own history
        Thread &t = S->th[S->cur];
        if (k == OB_STACK) { if (t.stackNext + 1 >= (1 << 20)) incomplete("stack ids"); id = ((u64)(16 + S->cur) << 20) + t.stackNext++; }
        else { if (t.heapNext + 1 >= (1 << 20)) incomplete("heap ids"); id = ((u64)(1 + S->cur) << 20) + t.heapNext++; }
    } else id = S->mem.next++;
    Obj *o = newObj(size, k, uninit);
    S->mem.set(id, o);
    return addrOf(id);
}
u64 funcAddr(const Function *F) { return dfunc(F)->addr; }
DFunc *dfunc(const Function *F) {
    DFunc *&d = g_funcs[F];
    if (!d) { d = new DFunc; d->F = F; d->name = F->getName().str(); }
    return d;
}
void initImage() {
    for (Function &F : *M) { if (F.isIntrinsic()) continue; DFunc *d = dfunc(&F); d->addr = newObject(0, OB_FUNC, false); g_funcByAddr[d->addr] = d; }
    for (GlobalVariable &g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
        bool ext = g.isDeclaration();
        if (ext && sz < 256) sz = 256;
        g_gaddr[&g] = newObject(sz, g.isThreadLocal() ? OB_TLS : ext ? OB_EXT : g.isConstant() ? OB_CONST : OB_GLOBAL, false);
        if (ext) g_externAddr[g.getName().str()] = g_gaddr[&g];
    }
    for (GlobalVariable &g : M->globals()) {
        if (!g.hasInitializer() || g.getName().starts_with("llvm.") || g.isThreadLocal()) continue;
        u64 sz = DL->getTypeAllocSize(g.getValueType());
        std::vector<u8> buf(sz + 16, 0);
        initBytes(g.getInitializer(), buf.data());
        Obj *o = S->mem.writable(idOf(g_gaddr[&g]));
        for (u64 i = 0; i < sz; i += PAGE) memcpy(S->mem.wpage(o, i / PAGE)->data(), buf.data() + i, std::min<u64>(PAGE, sz - i));
    }
}
u64 tlsAddr(const GlobalVariable *g) {
    auto &m = S->th[S->cur].tls;
    auto it = m.find(g);
    if (it != m.end()) return it->second;
    if (!g->hasInitializer()) incomplete("external thread_local " + g->getName().str());
    u64 sz = DL->getTypeAllocSize(g->getValueType());
    u64 a = newObject(sz, OB_GLOBAL, false);
    std::vector<u8> buf(sz + 16, 0);
    initBytes(g->getInitializer(), buf.data());
    Obj *o = S->mem.writable(idOf(a));
    for (u64 i = 0; i < sz; i += PAGE) memcpy(S->mem.wpage(o, i / PAGE)->data(), buf.data() + i, std::min<u64>(PAGE, sz - i));
    return m[g] = a;
}

// ---------------------------------------------------------------- decoding
struct Dec {
    DFunc *d; const Function *F;
    std::unordered_map<const Value *, int> slot;
    std::unordered_map<const Constant *, int> cslot;
    std::unordered_map<const BasicBlock *, int> bbi;
    Opnd op(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cslot.find(c);
            if (it != cslot.end()) return {~it->second};
            int i = d->consts.size();
            flatConst(c, d->consts);
            cslot[c] = i;
            return {~i};
        }
        auto it = slot.find(v);
        if (it == slot.end()) { fprintf(stderr, "operand\n"); abort(); }
        return {it->second};
    }
};
static bool isRefcount(const Instruction *I) {
    const DILocation *l = I->getDebugLoc().get();
    for (; l; l = l->getInlinedAt()) {
        StringRef f = l->getFilename();
        if (f.ends_with("ext/atomicity.h")) return true;
    }
    return false;
}
static int ordOf(AtomicOrdering o) {          // 0 none 1 relaxed 2 acquire 3 release 4 acqrel/seqcst
    switch (o) {
    case AtomicOrdering::NotAtomic: return 0;
    case AtomicOrdering::Unordered: case AtomicOrdering::Monotonic: return 1;
    case AtomicOrdering::Acquire: return 2;
    case AtomicOrdering::Release: return 3;
    default: return 4;
    }
}
Callee *resolveCallee(const Function *F, const std::string &from) {
    static std::unordered_map<std::string, Callee *> memo;
    std::string nm = F->getName().str();
    std::string key = nm;
    bool insideWrap = from == "__wrap_" + nm;
    if (insideWrap) key += "#w";
    Callee *&c = memo[key];
    if (c) return c;
    c = new Callee;
    if (!insideWrap) if (Function *w = M->getFunction("__wrap_" + nm)) if (!w->isDeclaration()) { c->fn = dfunc(w); return c; }
    if (nm.rfind("__real_", 0) == 0) {
        nm = nm.substr(7);
        if (Function *r = M->getFunction(nm)) if (!r->isDeclaration()) { c->fn = dfunc(r); return c; }
    }
    bool vis = false;
    BFn b = findBuiltin(nm, vis);
    if (b && (F->isDeclaration() || nm.rfind("sym_", 0) == 0)) { c->bi = b; c->vis = vis; return c; }
    if (!F->isDeclaration()) { c->fn = dfunc(F); return c; }
    c->missing = nm;
    return c;
}
void decode(DFunc *d) {
    d->decoded = true;
    Dec D; D.d = d; D.F = d->F;
    const Function *F = d->F;
    auto alloc = [&](const Value *v) { u32 n = layOf(v->getType())->leaves.size(); int s = d->nregs; d->nregs += n; D.slot[v] = s; return s; };
    for (const Argument &a : F->args()) { int s = alloc(&a); (void)s; d->argSlots.push_back(layOf(a.getType())->leaves.size()); }
    d->nargs = F->arg_size(); d->varargs = F->isVarArg();
    int nb = 0;
    for (const BasicBlock &B : *F) D.bbi[&B] = nb++;
    for (const BasicBlock &B : *F) for (const Instruction &I : B) if (!I.getType()->isVoidTy()) alloc(&I);
    d->bb.resize(nb);
    for (const BasicBlock &B : *F) {
        DBB &bb = d->bb[D.bbi[&B]]; bb.bb = &B;
        for (const Instruction &I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst in; in.I = &I; in.self = D.bbi[&B];
            const TypeLay *lay = layOf(I.getType());
            in.lay = lay; in.n = lay->leaves.size();
            if (!I.getType()->isVoidTy()) in.dst = D.slot[&I];
            if (!lay->leaves.empty()) { in.w = lay->leaves[0].w; in.fp = lay->leaves[0].fp; in.isPtr = lay->leaves[0].ptr; }
            bool ok = lay->ok;
            for (const Use &u : I.operands()) {
                if (isa<BasicBlock>(u) || isa<MetadataAsValue>(u) || isa<InlineAsm>(u)) continue;
                if (isa<CallBase>(I)) continue;
                if (!layOf(u->getType())->ok) ok = false;
            }
            auto addOps = [&]() { for (const Use &u : I.operands()) if (!isa<BasicBlock>(u)) in.ops.push_back(D.op(u)); };
            if (!ok && !isa<CallBase>(I)) { in.op = I_UNSUP; bb.in.push_back(in); continue; }
            switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
            case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                in.op = I_BIN; in.sub = I.getOpcode(); addOps(); break;
            case Instruction::FNeg: in.op = I_FNEG; addOps(); break;
            case Instruction::ICmp: case Instruction::FCmp:
                in.op = I.getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP; in.sub = cast<CmpInst>(I).getPredicate();
                in.w2 = layOf(I.getOperand(0)->getType())->leaves[0].w; addOps(); break;
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                in.op = I_CAST; in.sub = I.getOpcode(); in.w2 = layOf(I.getOperand(0)->getType())->leaves[0].w; addOps();
                if (layOf(I.getOperand(0)->getType())->leaves.size() != in.n) in.op = I_UNSUP;
                break;
            case Instruction::Freeze: in.op = I_COPY; in.ops.push_back(D.op(I.getOperand(0))); break;
            case Instruction::Select: in.op = I_SELECT; in.sub = I.getOperand(0)->getType()->isVectorTy(); addOps(); break;
            case Instruction::Load: {
                auto &L = cast<LoadInst>(I); in.op = I_LOAD; in.ops.push_back(D.op(L.getPointerOperand())); in.ord = ordOf(L.getOrdering());
                in.vis = in.ord > 0; break;
            }
            case Instruction::Store: {
                auto &L = cast<StoreInst>(I); in.op = I_STORE; in.ops.push_back(D.op(L.getPointerOperand())); in.ops.push_back(D.op(L.getValueOperand()));
                in.lay = layOf(L.getValueOperand()->getType()); in.ord = ordOf(L.getOrdering()); in.vis = in.ord > 0; break;
            }
            case Instruction::AtomicRMW: {
                auto &L = cast<AtomicRMWInst>(I); in.op = I_RMW; in.sub = L.getOperation(); in.ops.push_back(D.op(L.getPointerOperand())); in.ops.push_back(D.op(L.getValOperand()));
                in.ord = ordOf(L.getOrdering()); in.refc = isRefcount(&I); in.vis = !in.refc; break;
            }
            case Instruction::AtomicCmpXchg: {
                auto &L = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.ops.push_back(D.op(L.getPointerOperand())); in.ops.push_back(D.op(L.getCompareOperand())); in.ops.push_back(D.op(L.getNewValOperand()));
                in.ord = ordOf(L.getSuccessOrdering()); in.imm = ordOf(L.getFailureOrdering()); in.weak = L.isWeak(); in.refc = isRefcount(&I); in.vis = !in.refc;
                in.w = layOf(L.getCompareOperand()->getType())->leaves[0].w; break;
            }
            case Instruction::Fence: in.op = I_FENCE; in.ord = ordOf(cast<FenceInst>(I).getOrdering()); break;
            case Instruction::GetElementPtr: {
                auto &G = cast<GetElementPtrInst>(I);
                if (I.getType()->isVectorTy()) { in.op = I_UNSUP; break; }
                in.op = I_GEP; in.gep = new GepInfo; in.ops.push_back(D.op(G.getPointerOperand()));
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *st = it.getStructTypeOrNull()) { in.gep->off += (i64)(u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    i64 sc = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) in.gep->off += sc * ci->getSExtValue();
                    else in.gep->terms.push_back({D.op(ix), sc, (unsigned)ix->getType()->getIntegerBitWidth()});
                }
                break;
            }
            case Instruction::Alloca: {
                auto &A = cast<AllocaInst>(I); in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(A.getAllocatedType());
                in.ops.push_back(D.op(A.getArraySize())); in.w2 = A.getArraySize()->getType()->getIntegerBitWidth(); break;
            }
            case Instruction::Br: {
                auto &B2 = cast<BranchInst>(I);
                in.t0 = D.bbi[B2.getSuccessor(0)];
                if (B2.isConditional()) { in.op = I_CONDBR; in.ops.push_back(D.op(B2.getCondition())); in.t1 = D.bbi[B2.getSuccessor(1)]; } else in.op = I_BR;
                break;
            }
            case Instruction::Switch: {
                auto &W = cast<SwitchInst>(I); in.op = I_SWITCH; in.ops.push_back(D.op(W.getCondition())); in.w2 = W.getCondition()->getType()->getIntegerBitWidth();
                in.t0 = D.bbi[W.getDefaultDest()];
                for (auto &c : W.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), D.bbi[c.getCaseSuccessor()]});
                break;
            }
            case Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) { addOps(); in.lay = layOf(I.getOperand(0)->getType()); in.n = in.lay->leaves.size(); } break;
            case Instruction::Unreachable: in.op = I_UNREACHABLE; break;
            case Instruction::ExtractValue: {
                auto &X = cast<ExtractValueInst>(I); u32 cnt; u32 off = subSlots(X.getAggregateOperand()->getType(), X.getIndices(), cnt);
                Opnd o = D.op(X.getAggregateOperand()); o.i = o.i >= 0 ? o.i + (int)off : ~(~o.i + (int)off);
                in.op = I_COPY; in.ops.push_back(o); break;
            }
            case Instruction::InsertValue: {
                auto &X = cast<InsertValueInst>(I); u32 cnt; u32 off = subSlots(X.getAggregateOperand()->getType(), X.getIndices(), cnt);
                in.op = I_INSVAL; in.ops.push_back(D.op(X.getAggregateOperand())); in.ops.push_back(D.op(X.getInsertedValueOperand())); in.imm = off; in.w2 = cnt; break;
            }
            case Instruction::ExtractElement: { in.op = I_EXTELT; addOps(); in.imm = layOf(I.getOperand(0)->getType())->leaves.size(); break; }
            case Instruction::InsertElement: { in.op = I_INSELT; addOps(); break; }
            case Instruction::ShuffleVector: {
                auto &X = cast<ShuffleVectorInst>(I); in.op = I_SHUFFLE; in.ops.push_back(D.op(X.getOperand(0))); in.ops.push_back(D.op(X.getOperand(1)));
                in.imm = layOf(X.getOperand(0)->getType())->leaves.size();
                for (int m : X.getShuffleMask()) in.cases.push_back({0, m});
                break;
            }
            case Instruction::LandingPad: in.op = I_LPAD; bb.lpad = bb.in.size(); break;
            case Instruction::Resume: in.op = I_RESUME; addOps(); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto &C = cast<CallBase>(I);
                in.op = I_CALL;
                if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.t0 = D.bbi[iv->getNormalDest()]; in.t1 = D.bbi[iv->getUnwindDest()]; }
                if (C.isInlineAsm()) { in.op = cast<InlineAsm>(C.getCalledOperand())->getAsmString().empty() || cast<InlineAsm>(C.getCalledOperand())->getAsmString() == "pause" || cast<InlineAsm>(C.getCalledOperand())->getAsmString() == "rep; nop" ? I_NOP : I_UNSUP; break; }
                const Function *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
                if (cf && cf->isIntrinsic()) {
                    switch (cf->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::vaend:
                        in.op = I_NOP; break;
                    default: {
                        in.callee = new Callee; in.callee->intr = cf->getIntrinsicID();
                        if (in.callee->intr == Intrinsic::threadlocal_address) { break; }
                    }
                    }
                    if (in.op == I_NOP) break;
                    for (const Use &u : C.args()) {
                        if (isa<MetadataAsValue>(u)) { in.ops.push_back({0}); in.argLay.push_back(nullptr); continue; }
                        const TypeLay *al = layOf(u->getType()); if (!al->ok) ok = false;
                        in.ops.push_back(D.op(u)); in.argLay.push_back(al); in.byval.push_back(0);
                    }
                    if (!ok) in.op = I_UNSUP;
                    break;
                }
                for (unsigned i = 0; i < C.arg_size(); i++) {
                    const Value *u = C.getArgOperand(i);
                    const TypeLay *al = layOf(u->getType()); if (!al->ok) ok = false;
                    in.ops.push_back(D.op(u)); in.argLay.push_back(al);
                    in.byval.push_back(C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
                }
                if (!ok) { in.op = I_UNSUP; break; }
                if (cf) { in.callee = resolveCallee(cf, d->name); in.vis = in.callee->vis; }
                else in.ops.push_back(D.op(C.getCalledOperand()));
                break;
            }
            default: in.op = I_UNSUP; break;
            }
            in.siteId = g_sites.size();
            g_sites.push_back(nullptr);
            bb.in.push_back(std::move(in));
        }
        // phi moves
        std::map<int, std::vector<Move>> ph;
        for (const PHINode &P : B.phis())
            for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
                auto &v = ph[D.bbi[P.getIncomingBlock(i)]];
                bool dup = false; for (auto &m : v) if (m.dst == D.slot[&P]) dup = true;
                if (!dup) v.push_back({D.slot[&P], (u32)layOf(P.getType())->leaves.size(), D.op(P.getIncomingValue(i))});
            }
        for (auto &p : ph) bb.phis.push_back(p);
    }
    for (auto &bb : d->bb) for (auto &in : bb.in) g_sites[in.siteId] = &in;
    for (auto &p : D.slot) d->slotOf[p.first] = {p.second, (u32)layOf(p.first->getType())->leaves.size()};
}

// ---------------------------------------------------------------- diagnostics
std::string locOf(const Instruction *I) {
    if (!I) return "?";
    const DILocation *l = I->getDebugLoc().get();
    if (!l) return I->getFunction()->getName().str();
    std::string r;
    const DILocation *best = l;
    for (const DILocation *x = l; x; x = x->getInlinedAt()) { StringRef f = x->getFilename(); if (!f.contains("/usr/") && !f.contains("/include/c++/")) { best = x; break; } }
    r = best->getFilename().str() + ":" + std::to_string(best->getLine());
    return r;
}
std::string stackTrace() {
    std::string r; auto &t = S->th[S->cur];
    int n = 0;
    for (size_t i = t.st.size(); i-- > 0 && n < 14; n++) {
        Frame &f = *t.st[i];
        std::string l = locOf(f.f->bb[f.bb].in[f.ip].I);
        if (!r.empty()) r += " < ";
        r += l;
    }
    return r;
}
std::string topLoc() {
    auto &t = S->th[S->cur];
    for (size_t i = t.st.size(); i-- > 0;) {
        Frame &f = *t.st[i];
        std::string l = locOf(f.f->bb[f.bb].in[f.ip].I);
        if (l.find(g_cfg.repo) == 0) return l;
    }
    return t.st.empty() ? "?" : locOf(t.st.back()->f->bb[t.st.back()->bb].in[t.st.back()->ip].I);
}
[[noreturn]] void incomplete(const std::string &why) {
    std::string loc = S && S->th.size() && S->th[S->cur].st.size() ? stackTrace() : "init";
    g_incomplete[why + " @ " + loc]++;
    throw PathEnd{};
}
void report(const std::string &id, const std::string &msg, const Model &m) {
    std::string loc = topLoc();
    for (auto &v : g_viol) if (v.id == id && v.loc == loc) { v.count++; return; }
    Violation v; v.id = id; v.msg = msg; v.loc = loc; v.stack = stackTrace(); v.count = 1; v.threads = S->th.size();
    for (u32 i : S->inputs) v.inputs.push_back({g_vars[i].name, i < m->size() ? (*m)[i] : 0});
    v.sched = S->sched;
    v.tids = S->cur;
    g_viol.push_back(v);
    if (g_cfg.verbose) fprintf(stderr, "VIOL %s: %s\n  %s\n", id.c_str(), msg.c_str(), v.stack.c_str());
}
[[noreturn]] void violate(const std::string &id, const std::string &msg) { report(id, msg, S->model); throw PathEnd{}; }

// ---------------------------------------------------------------- constraints
E freshVar(unsigned w, const std::string &name, u64 lo, u64 hi, bool input) {
    E v = mkVar(w, name, lo, hi);
    auto m = std::make_shared<ModelVec>(*S->model);
    u64 mx = w >= 64 ? ~0ull : (1ull << w) - 1;
    if (m->size() <= v->ext) m->resize(v->ext + 1, 0);
    u64 val = lo;
    if (g_cfg.replay) { auto it = g_cfg.replayVals.find(name); if (it != g_cfg.replayVals.end()) val = it->second & mx; }
    (*m)[v->ext] = val;
    S->model = m;
    if (input) S->inputs.push_back(v->ext);
    return v;
}
static void addKnown(E c, u64 val) {
    auto it = std::lower_bound(S->known.begin(), S->known.end(), std::make_pair(c->ext, (u64)0));
    if (it != S->known.end() && it->first == c->ext) return;
    S->known.insert(it, {c->ext, val});
}
void addCons(E c) {
    if (isTrue(c)) return;
    if (c->w == 1 && c->op == K_AND) { addCons(c->a); addCons(c->b); return; }
    S->cons.push_back(c);
    E cv = c->op == K_EQ ? (c->a->op == K_VAR ? c->a : c->b) : c;
    if (!(cv->op == K_VAR && g_vars[cv->ext].name.compare(0, 6, "sched#") == 0)) S->consHash = (S->consHash * 0x9E3779B97F4A7C15ull) ^ (u64)(uintptr_t)c;
    if (c->op == K_EQ) {
        if (c->a->op == K_VAR && c->b->op == K_CONST) addKnown(c->a, (u64)c->b->val);
        else if (c->b->op == K_VAR && c->a->op == K_CONST) addKnown(c->b, (u64)c->a->val);
    } else if (c->op == K_VAR) addKnown(c, 1);
    else if (c->op == K_NOT && c->a->op == K_VAR) addKnown(c->a, 0);
}
State *cloneState() { State *n = new State(*S); n->id = ++g_st.states; return n; }
bool decide(E c) {
    c = substVars(c, S->known);
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    g_st.decides++;
    if (g_cfg.verbose && getenv("SYMTRACE")) fprintf(stderr, "decide %s\n   @ %s\n", exprStr(c, 12).c_str(), stackTrace().c_str());
    E nc = mkNot(c);
    size_t n = S->cons.size();
    for (size_t i = n; i-- > 0 && i + 64 > n;) { if (S->cons[i] == c) return true; if (S->cons[i] == nc) return false; }
    bool b = evalExpr(c, S->model) != 0;
    if (g_cfg.replay) { addCons(b ? c : nc); return b; }
    Model m2 = S->model;
    Tri t = solveMay(S->cons, b ? nc : c, m2);
    if (t == YES) {
        State *ch = cloneState();
        State *old = S; S = ch; ch->model = m2; addCons(b ? nc : c); S = old;
        g_work.push_back(ch); g_st.forks++;
        addCons(b ? c : nc);
    } else if (t == UNK) g_incomplete["solver unknown @ " + stackTrace()]++;
    return b;
}
u64 concretize(E e) {
    e = substVars(e, S->known);
    if (e->op == K_CONST) return (u64)e->val;
    for (;;) {
        u64 v = (u64)evalExpr(e, S->model);
        if (decide(mkEq(e, mkConst(e->w, v)))) return v;
    }
}
u64 concr(const Val &v) { return v.e ? concretize(v.e) : v.c; }
bool mayBe(E c, Model &m) {
    c = substVars(c, S->known);
    if (isFalse(c)) return false;
    m = S->model;
    if (isTrue(c)) return true;
    if (evalExpr(c, S->model)) return true;
    if (g_cfg.replay) return false;
    Tri t = solveMay(S->cons, c, m);
    if (t == UNK) { g_incomplete["solver unknown @ " + stackTrace()]++; return false; }
    return t == YES;
}
void assume(E c) {
    c = substVars(c, S->known);
    if (isTrue(c)) return;
    if (isFalse(c)) throw PathEnd{};
    if (!evalExpr(c, S->model)) {
        if (g_cfg.replay) throw PathEnd{};
        Model m = S->model;
        Tri t = solveMay(S->cons, c, m);
        if (t == UNK) incomplete("solver unknown in assume");
        if (t == NO) { g_st.infeasible++; throw PathEnd{}; }
        S->model = m;
    }
    addCons(c);
}
// assert: c must hold; reports a violation otherwise and continues with c assumed
void mustHold(E c, const std::string &id, const std::string &msg) {
    g_st.obligations++;
    c = substVars(c, S->known);
    if (isTrue(c)) return;
    Model m;
    if (mayBe(mkNot(c), m)) { report(id, msg, m); if (g_cfg.stopAtFirst) throw PathEnd{}; assume(c); }
}

// ---------------------------------------------------------------- memory access
static void tick(Thread &t) { t.vc[S->cur]++; }
static void raceReport(const Cell &c, bool w, const char *what) {
    std::string o = c.wsite && g_sites[c.wsite] ? locOf(g_sites[c.wsite]->I) : "?";
    violate("data-race", std::string(what) + " races with another thread (previous write at " + o + ")");
}
static void raceAccess(Obj *o, u64 off, u64 n, bool write, bool atomic) {
    Thread &t = S->th[S->cur];
    u32 site = 0; { Frame &f = *t.st.back(); site = f.f->bb[f.bb].in[f.ip].siteId; }
    for (u64 i = off; i < off + n; i++) {
        Page *p = S->mem.wpage(o, i / PAGE);
        if (!p->sh) p->sh = new Cell[p->n]();
        Cell &c = p->sh[i % PAGE];
        // pad bit0: last write atomic; pad bit1: all recorded reads atomic is not tracked separately
        if (c.wclk && c.wtid != S->cur && c.wclk > t.vc[c.wtid] && !(atomic && (c.pad & 1))) raceReport(c, write, write ? "write" : "read");
        if (write) {
            if (!atomic) for (int k = 0; k < (int)S->th.size(); k++) if (k != S->cur && c.r[k] > t.vc[k]) violate("data-race", "write races with a read by another thread");
            if (atomic) for (int k = 0; k < (int)S->th.size(); k++) if (k != S->cur && c.r[k] > t.vc[k] && !(c.pad & (2u << (k < 6 ? k : 6)))) violate("data-race", "atomic write races with a plain read by another thread");
            c.wclk = t.vc[S->cur]; c.wtid = S->cur; c.pad = (c.pad & ~1) | (atomic ? 1 : 0); c.wsite = site;
        } else {
            c.r[S->cur] = t.vc[S->cur];
            u8 bit = 2u << (S->cur < 6 ? S->cur : 6);
            if (atomic) c.pad |= bit; else c.pad &= ~bit;
        }
    }
}
static inline bool racing() { return S->race && S->th.size() > 1 && !S->top().f->exempt; }

struct Place { u64 id; Obj *o; u64 off; bool sym; E offE; u64 lo, hi, step; };
static std::string objDesc(Obj *o) { static const char *k[] = {"global", "constant", "stack", "heap", "function", "external", "tls"}; return std::string(k[o->kind]) + " object of " + std::to_string(o->size) + " bytes"; }
static Obj *checkObj(u64 addr, u64 id, bool write) {
    Obj *o = S->mem.get(id);
    if (!o) { char b[64]; snprintf(b, sizeof b, "%s at 0x%llx", write ? "write" : "read", (unsigned long long)addr); violate("memory", addr < 0x100000 ? std::string("null pointer ") + b : std::string("wild pointer ") + b); }
    if (o->freed) violate("memory", std::string(write ? "write to" : "read of") + " freed " + objDesc(o));
    if (o->kind == OB_FUNC) violate("memory", "data access to a function");
    if (o->kind == OB_TLS) incomplete("direct thread_local access");
    if (write && o->kind == OB_CONST) violate("memory", "write to constant");
    return o;
}
static Place place(const Val &a, u64 n, bool write) {
    Place P; P.sym = false;
    if (!a.e) {
        P.id = idOf(a.c); P.o = checkObj(a.c, P.id, write);
        i64 off = offOf(a.c);
        if (off < 0 || (u64)off + n > P.o->size) violate("memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of " + objDesc(P.o));
        P.off = off; return P;
    }
    E e = substVars(a.e, S->known);
    if (e->op == K_CONST) return place(cv((u64)e->val), n, write);
    u64 mv = (u64)evalExpr(e, S->model);
    u64 id = idOf(mv);
    if ((u64)(e->lo >> 24) != id || (u64)(e->hi >> 24) != id || e->hi >> 64) {
        E idE = mkExtract(e, 24, 40);
        if (!decide(mkEq(idE, mkConst(40, id)))) { fprintf(stderr, "place\n"); abort(); }
    }
    P.id = id; P.o = checkObj(mv, id, write);
    E off = mkSub(e, mkConst(64, addrOf(id)));
    // in bounds?
    if (n > P.o->size) violate("memory", "access larger than object");
    u64 maxo = P.o->size - n;
    E inb = mkUle(off, mkConst(64, maxo));
    if (!isTrue(inb)) {
        g_st.obligations++;
        Model m;
        if (mayBe(mkNot(inb), m)) { report("memory", std::string(write ? "write" : "read") + " out of bounds of " + objDesc(P.o) + " (offset " + std::to_string((i64)(u64)evalExpr(off, m)) + ")", m); if (g_cfg.stopAtFirst) throw PathEnd{}; }
        assume(inb);
    }
    off = substVars(off, S->known);
    if (off->op == K_CONST) { P.off = (u64)off->val; return P; }
    u64 lo = off->lo > maxo ? 0 : (u64)off->lo, hi = off->hi > maxo ? maxo : (u64)off->hi;
    u64 step = off->tz >= 12 ? 4096 : (1ull << off->tz);
    lo = (lo + step - 1) / step * step;
    hi = hi / step * step;
    if (hi < lo) throw PathEnd{};
    if (lo == hi) { P.off = lo; return P; }
    if ((hi - lo) / step > 300 || S->addr) { P.off = concretize(off); return P; }
    P.sym = true; P.offE = off; P.lo = lo; P.hi = hi; P.step = step; P.off = lo;
    return P;
}
static inline Page *rpage(Obj *o, u64 off) { return o->pg[off / PAGE]; }
static E byteAt(u64 id, Obj *o, u64 off) {
    Page *p = rpage(o, off); u32 i = off % PAGE;
    switch (p->tag()[i]) {
    case 0: return mkConst(8, p->data()[i]);
    case 1: return p->sym[i];
    default: {
        Obj *w = S->mem.writable(id); Page *q = S->mem.wpage(w, off / PAGE);
        char nm[32]; snprintf(nm, sizeof nm, "uninit#%u", (unsigned)S->occ["#uninit"]++);
        E v = freshVar(8, nm, 0, 255, true); g_st.uninit++;
        if (!q->sym) { q->sym = (E *)calloc(q->n, sizeof(E)); }
        q->sym[i] = v; q->tag()[i] = 1;
        return v;
    }
    }
}
Val rawLoad(u64 id, Obj *o, u64 off, u32 n) {
    u32 i = off % PAGE;
    Page *p = rpage(o, off);
    if (i + n <= p->n && n <= 8) {
        bool clean = true;
        if (p->hasTag) { u64 t = 0; memcpy(&t, p->tag() + i, n); clean = t == 0; }
        if (clean) { u64 v = 0; memcpy(&v, p->data() + i, n); return cv(v); }
    }
    E r = nullptr;
    for (u32 k = 0; k < n; k++) { E b = byteAt(id, S->mem.get(id), off + k); r = r ? mkConcat(b, r) : b; }
    return n > 8 ? Val{r, 0} : fromE(r);
}
void rawStore(u64 id, u64 off, u32 n, const Val &v) {
    Obj *o = S->mem.writable(id);
    if (!v.e || v.e->op == K_CONST) {
        u8 buf[16]; u128 x = v.e ? v.e->val : v.c; memcpy(buf, &x, 16);
        u32 k = 0;
        while (k < n) {
            Page *p = S->mem.wpage(o, (off + k) / PAGE); u32 i = (off + k) % PAGE; u32 m = std::min<u32>(n - k, p->n - i);
            memcpy(p->data() + i, buf + k, m);
            if (p->hasTag) memset(p->tag() + i, 0, m);
            k += m;
        }
        return;
    }
    for (u32 k = 0; k < n; k++) {
        Page *p = S->mem.wpage(o, (off + k) / PAGE); u32 i = (off + k) % PAGE;
        E b = mkExtract(v.e, 8 * k, 8);
        if (b->op == K_CONST) { p->data()[i] = (u8)b->val; p->tag()[i] = 0; }
        else { if (!p->sym) p->sym = (E *)calloc(p->n, sizeof(E)); p->sym[i] = b; p->tag()[i] = 1; p->hasTag = true; }
    }
}
Val loadMem(const Val &a, u32 n, bool atomic) {
    Place P = place(a, n, false);
    if (racing()) { Obj *w = S->mem.writable(P.id); if (P.sym) { for (u64 o = P.lo; o <= P.hi; o += P.step) raceAccess(w, o, n, false, atomic); } else raceAccess(w, P.off, n, false, atomic); P.o = w; }
    if (!P.sym) return rawLoad(P.id, P.o, P.off, n);
    Val last = rawLoad(P.id, P.o, P.hi, n);
    E r = toE(last, 8 * n);
    for (u64 o = P.hi; o > P.lo;) {
        o -= P.step;
        E v = toE(rawLoad(P.id, S->mem.get(P.id), o, n), 8 * n);
        r = mkIte(mkEq(P.offE, mkConst(64, o)), v, r);
    }
    return n > 8 ? Val{r, 0} : fromE(r);
}
void storeMem(const Val &a, u32 n, const Val &v, bool atomic) {
    Place P = place(a, n, true);
    if (racing()) { Obj *w = S->mem.writable(P.id); if (P.sym) { for (u64 o = P.lo; o <= P.hi; o += P.step) raceAccess(w, o, n, true, atomic); } else raceAccess(w, P.off, n, true, atomic); }
    if (!P.sym) { rawStore(P.id, P.off, n, v); return; }
    E ve = toE(v, 8 * n);
    if (n == 1 || P.step >= n) {
        for (u64 o = P.lo; o <= P.hi; o += P.step) {
            E old = toE(rawLoad(P.id, S->mem.get(P.id), o, n), 8 * n);
            rawStore(P.id, o, n, fromE(mkIte(mkEq(P.offE, mkConst(64, o)), ve, old)));
        }
    } else { u64 o = concretize(P.offE); rawStore(P.id, o, n, v); }
}
// concrete address range helpers for builtins
void rangeCheck(u64 addr, u64 n, bool write, u64 &id, u64 &off) {
    Place P = place(cv(addr), n, write);
    id = P.id; off = P.off;
    if (racing() && n) raceAccess(S->mem.writable(id), off, n, write, false);
}
u64 concreteAddr(const Val &a, u64 n, bool write) {
    if (!a.e) return a.c;
    Place P = place(a, n, write);               // reports out-of-bounds offsets symbolically first
    if (P.sym) P.off = concretize(P.offE);
    return addrOf(P.id) + P.off;
}
void memCopy(u64 dst, u64 src, u64 n) {
    if (!n) return;
    u64 di, doff, si, soff;
    rangeCheck(src, n, false, si, soff); rangeCheck(dst, n, true, di, doff);
    std::vector<u8> b(n), t(n); std::vector<E> s;
    Obj *so = S->mem.get(si);
    bool anySym = false;
    for (u64 k = 0; k < n;) {
        Page *p = rpage(so, soff + k); u32 i = (soff + k) % PAGE; u32 m = std::min<u64>(n - k, p->n - i);
        memcpy(&b[k], p->data() + i, m);
        if (p->hasTag) {
            memcpy(&t[k], p->tag() + i, m);
            if (p->sym) { if (!anySym) { s.resize(n); anySym = true; } for (u32 j = 0; j < m; j++) if (t[k + j] == 1) s[k + j] = p->sym[i + j]; }
        }
        k += m;
    }
    Obj *o = S->mem.writable(di);
    for (u64 k = 0; k < n;) {
        Page *p = S->mem.wpage(o, (doff + k) / PAGE); u32 i = (doff + k) % PAGE; u32 m = std::min<u64>(n - k, p->n - i);
        memcpy(p->data() + i, &b[k], m);
        bool any = false; for (u32 j = 0; j < m && !any; j++) any = t[k + j];
        if (any || p->hasTag) {
            memcpy(p->tag() + i, &t[k], m); if (any) p->hasTag = true;
            if (anySym) for (u32 j = 0; j < m; j++) if (t[k + j] == 1) { if (!p->sym) p->sym = (E *)calloc(p->n, sizeof(E)); p->sym[i + j] = s[k + j]; }
        }
        k += m;
    }
}
void memFill(u64 dst, const Val &v, u64 n) {
    if (!n) return;
    u64 di, doff; rangeCheck(dst, n, true, di, doff);
    if (v.e) { for (u64 k = 0; k < n; k++) rawStore(di, doff + k, 1, v); return; }
    Obj *o = S->mem.writable(di);
    for (u64 k = 0; k < n;) {
        Page *p = S->mem.wpage(o, (doff + k) / PAGE); u32 i = (doff + k) % PAGE; u32 m = std::min<u64>(n - k, p->n - i);
        memset(p->data() + i, (int)v.c, m); if (p->hasTag) memset(p->tag() + i, 0, m);
        k += m;
    }
}
std::string cstr(u64 addr) {
    std::string r;
    for (;;) { Val v = loadMem(cv(addr++), 1, false); u64 c = concr(v); if (!c) return r; r += (char)c; if (r.size() > 4096) incomplete("long string"); }
}
u64 load64(u64 a) { return concr(loadMem(cv(a), 8, false)); }
u32 load32(u64 a) { return concr(loadMem(cv(a), 4, false)); }
void store64(u64 a, u64 v) { storeMem(cv(a), 8, cv(v), false); }
void store32(u64 a, u32 v) { storeMem(cv(a), 4, cv(v), false); }
void freeObj(u64 id, const Inst *site) {
    Obj *o = S->mem.get(id);
    static Obj *deadStack = nullptr;
    if (o->kind == OB_STACK) {
        if (!deadStack) { deadStack = newObj(0, OB_STACK, false); deadStack->freed = true; }
        deadStack->rc++; S->mem.set(id, deadStack); return;
    }
    Obj *n = newObj(0, o->kind, false); n->freed = true; n->size = o->size; n->how = o->how;
    S->mem.set(id, n);
}

// ---------------------------------------------------------------- values
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(u64 v) { float d; u32 x = (u32)v; memcpy(&d, &x, 4); return d; }
static u64 ofD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 ofF(float d) { u32 v; memcpy(&v, &d, 4); return v; }
Val binop(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (!b.e) { if (!b.c) violate("div-by-zero", "integer division by zero"); }
        else mustHold(mkNe(b.e, mkConst(w, 0)), "div-by-zero", "integer division by zero");
    }
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, r;
        switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: r = x / y; break;
        case Instruction::URem: r = x % y; break;
        case Instruction::SDiv: r = sx(y, w) == -1 ? (u64)0 - (u64)sx(x, w) : (u64)(sx(x, w) / sx(y, w)); break;
        case Instruction::SRem: r = sx(y, w) == -1 ? 0 : (u64)(sx(x, w) % sx(y, w)); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        default: r = y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (u64)(sx(x, w) >> y); break;
        }
        return cv(r & msk(w));
    }
    E x = toE(a, w), y = toE(b, w);
    switch (op) {
    case Instruction::Add: return fromE(mkAdd(x, y));
    case Instruction::Sub: return fromE(mkSub(x, y));
    case Instruction::Mul: return fromE(mkMul(x, y));
    case Instruction::UDiv: return fromE(mkUDiv(x, y));
    case Instruction::URem: return fromE(mkURem(x, y));
    case Instruction::SDiv: return fromE(mkSDiv(x, y));
    case Instruction::SRem: return fromE(mkSRem(x, y));
    case Instruction::And: return fromE(mkAnd(x, y));
    case Instruction::Or: return fromE(mkOr(x, y));
    case Instruction::Xor: return fromE(mkXor(x, y));
    case Instruction::Shl: return fromE(mkShl(x, y));
    case Instruction::LShr: return fromE(mkLShr(x, y));
    default: return fromE(mkAShr(x, y));
    }
}
static Val fbin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.e || b.e) incomplete("symbolic floating point");
    if (w == 64) { double x = asD(a.c), y = asD(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = __builtin_fmod(x, y); } return cv(ofD(r)); }
    float x = asF(a.c), y = asF(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = __builtin_fmodf(x, y); } return cv(ofF(r));
}
Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; i64 sx_ = sx(x, w), sy = sx(y, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
        case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
        case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
        case CmpInst::ICMP_SGT: return cv(sx_ > sy); case CmpInst::ICMP_SGE: return cv(sx_ >= sy);
        case CmpInst::ICMP_SLT: return cv(sx_ < sy); default: return cv(sx_ <= sy);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNe(x, y));
    case CmpInst::ICMP_UGT: return fromE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return fromE(mkUle(y, x));
    case CmpInst::ICMP_ULT: return fromE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return fromE(mkUle(x, y));
    case CmpInst::ICMP_SGT: return fromE(mkSlt(y, x)); case CmpInst::ICMP_SGE: return fromE(mkSle(y, x));
    case CmpInst::ICMP_SLT: return fromE(mkSlt(x, y)); default: return fromE(mkSle(x, y));
    }
}
static Val fcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
    if (a.e || b.e) incomplete("symbolic floating point");
    double x = w == 64 ? asD(a.c) : asF(a.c), y = w == 64 ? asD(b.c) : asF(b.c);
    bool un = x != x || y != y, r = false;
    switch (p) {
    case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
    case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
    }
    return cv(r);
}
static Val castv(Inst &in, const Val &a) {
    unsigned w = in.w, v = in.w2;
    switch (in.sub) {
    case Instruction::Trunc: if (!a.e && v <= 64) return cv(a.c & msk(w)); return w > 64 ? Val{mkExtract(toE(a, v), 0, w), 0} : fromE(mkExtract(toE(a, v), 0, w));
    case Instruction::ZExt: if (!a.e && w <= 64) return a; return w > 64 ? Val{mkZext(toE(a, v), w), 0} : fromE(mkZext(a.e, w));
    case Instruction::SExt: if (!a.e && w <= 64) return cv((u64)sx(a.c, v) & msk(w)); return w > 64 ? Val{mkSext(toE(a, v), w), 0} : fromE(mkSext(a.e, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (w == v) return a;
        if (w < v) { if (!a.e) return cv(a.c & msk(w)); return fromE(mkExtract(a.e, 0, w)); }
        if (!a.e) return a; return fromE(mkZext(a.e, w));
    case Instruction::BitCast: if (w != v) incomplete("bitcast"); return a;
    }
    if (a.e) {
        if (w > 64 || v > 64) incomplete("wide fp cast");
        incomplete("symbolic floating point");
    }
    switch (in.sub) {
    case Instruction::FPToUI: { double d = v == 64 ? asD(a.c) : asF(a.c); if (w > 64) incomplete("wide fp cast"); return cv((u64)d & msk(w)); }
    case Instruction::FPToSI: { double d = v == 64 ? asD(a.c) : asF(a.c); if (w > 64) incomplete("wide fp cast"); return cv((u64)(i64)d & msk(w)); }
    case Instruction::UIToFP: return w == 64 ? cv(ofD((double)a.c)) : cv(ofF((float)a.c));
    case Instruction::SIToFP: return w == 64 ? cv(ofD((double)sx(a.c, v))) : cv(ofF((float)sx(a.c, v)));
    case Instruction::FPTrunc: return cv(ofF((float)asD(a.c)));
    default: return cv(ofD((double)asF(a.c)));
    }
}

// ---------------------------------------------------------------- control
Val getv(Opnd o) { Frame &f = *S->th[S->cur].st.back(); return o.i >= 0 ? f.regs[o.i] : f.f->consts[~o.i]; }
static inline Val getv2(Opnd o, u32 k) { Frame &f = *S->th[S->cur].st.back(); return o.i >= 0 ? f.regs[o.i + k] : f.f->consts[~o.i + k]; }
Val argv(Inst &in, unsigned i) { return getv(in.ops[i]); }
Val argvk(Inst &in, unsigned i, u32 k) { return getv2(in.ops[i], k); }
u64 argc_(Inst &in, unsigned i) { return concr(argv(in, i)); }
void setv(int dst, const Val &v) { if (dst >= 0) S->top().regs[dst] = v; }
void branchTo(int b) {
    Frame &f = S->top();
    DBB &bb = f.f->bb[b];
    if (!bb.phis.empty()) {
        for (auto &p : bb.phis) if (p.first == f.bb) {
            auto &mv = p.second;
            if (mv.size() == 1 && mv[0].n == 1) { f.regs[mv[0].dst] = mv[0].o.i >= 0 ? f.regs[mv[0].o.i] : f.f->consts[~mv[0].o.i]; break; }
            static std::vector<Val> tmp; tmp.clear();
            for (auto &m : mv) for (u32 k = 0; k < m.n; k++) tmp.push_back(m.o.i >= 0 ? f.regs[m.o.i + k] : f.f->consts[~m.o.i + k]);
            size_t j = 0; for (auto &m : mv) for (u32 k = 0; k < m.n; k++) f.regs[m.dst + k] = tmp[j++];
            break;
        }
    }
    f.bb = b; f.ip = 0;
}
void advance(Inst &in) { if (in.op == I_CALL && in.t0 >= 0) branchTo(in.t0); else S->top().ip++; }
Frame &pushFrame(DFunc *f) {
    if (!f->decoded) decode(f);
    if (f->bb.empty()) incomplete("call to undefined " + f->name);
    if (!f->ran) {
        f->ran = true;
        if (auto *sp = f->F->getSubprogram()) { std::string file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file; f->exempt = file.compare(0, g_cfg.own.size() + 1, g_cfg.own + "/") == 0; }
    }
    auto &st = S->th[S->cur].st;
    if (st.size() > 400) violate("stack-overflow", "call depth exceeds 400");
    auto fr = std::make_shared<Frame>();
    fr->f = f; fr->regs.resize(f->nregs); fr->stackBase = S->th[S->cur].stackNext;
    st.push_back(fr);
    return *fr;
}
void pushCallback(DFunc *f, std::initializer_list<u64> args) {
    Frame &fr = pushFrame(f); fr.plain = true;
    int k = 0; for (u64 a : args) fr.regs[k++] = cv(a);
}
void popFrame() {
    auto &st = S->th[S->cur].st;
    for (u64 a : st.back()->allocas) freeObj(idOf(a), nullptr);
    if (S->merge) {
        Thread &t = S->th[S->cur]; u64 b = (u64)(16 + S->cur) << 20;
        for (; t.stackNext > st.back()->stackBase; t.stackNext--) S->mem.set(b + t.stackNext - 1, nullptr);
    }
    st.pop_back();
}
void finishCallback(bool unwinding, Frame &fr) {
    if (fr.onceAddr) { store32(fr.onceAddr, unwinding ? 0 : 2); }
    if (fr.freeOnRet) freeObj(idOf(fr.freeOnRet), nullptr);
}
static void doRet(Inst &in) {
    auto &t = S->th[S->cur];
    std::vector<Val> rv; for (u32 k = 0; k < (in.ops.empty() ? 0 : in.n); k++) rv.push_back(getv2(in.ops[0], k));
    std::shared_ptr<Frame> fr = t.st.back();
    popFrame();
    if (fr->plain) finishCallback(false, *fr);
    if (t.st.empty()) { threadReturn(); return; }
    Frame &c = S->top();
    Inst &ci = c.f->bb[c.bb].in[c.ip];
    if (fr->plain) {
        if (fr->again) return;
        if (fr->hasRetv) setv(ci.dst, fr->retv);
        advance(ci); return;
    }
    if (ci.dst >= 0) for (u32 k = 0; k < rv.size() && k < ci.n; k++) c.regs[ci.dst + k] = rv[k];
    advance(ci);
}
void callFunction(Inst &in, DFunc *fn, unsigned nargs) {
    if (!fn->decoded) decode(fn);
    std::vector<Val> a; std::vector<std::pair<Val, u32>> va; std::vector<u64> copies;
    for (unsigned i = 0; i < nargs; i++) {
        if (in.byval[i]) {
            u64 src = concreteAddr(argv(in, i), in.byval[i], false);
            u64 o = newObject(in.byval[i], OB_STACK, true); memCopy(o, src, in.byval[i]); copies.push_back(o);
            if (i < fn->nargs) a.push_back(cv(o)); else va.push_back({cv(o), 64});
            continue;
        }
        for (u32 k = 0; k < in.argLay[i]->leaves.size(); k++)
            if (i < fn->nargs) a.push_back(argvk(in, i, k)); else va.push_back({argvk(in, i, k), in.argLay[i]->leaves[k].w});
    }
    if (nargs < fn->nargs) incomplete("argument count mismatch calling " + fn->name);
    Frame &f = pushFrame(fn);
    for (size_t i = 0; i < a.size(); i++) f.regs[i] = a[i];
    f.va = std::move(va); f.allocas = std::move(copies);
}
static void doGep(Inst &in) {
    Val b = getv(in.ops[0]);
    if (!b.e) {
        u64 r = b.c + in.gep->off; bool sym = false;
        for (auto &t : in.gep->terms) { Val v = getv(t.o); if (v.e) { sym = true; break; } r += (u64)(sx(v.c, t.w) * t.scale); }
        if (!sym) { setv(in.dst, cv(r)); return; }
    }
    E r = mkAdd(toE(b, 64), mkConst(64, (u64)in.gep->off));
    for (auto &t : in.gep->terms) {
        Val v = getv(t.o);
        if (!v.e) { r = mkAdd(r, mkConst(64, (u64)(sx(v.c, t.w) * t.scale))); continue; }
        E x = t.w < 64 ? mkSext(v.e, 64) : t.w > 64 ? mkExtract(v.e, 0, 64) : v.e;
        r = mkAdd(r, mkMul(x, mkConst(64, (u64)t.scale)));
    }
    setv(in.dst, fromE(r));
}
static void syncAcq(u64 a, int ord) {
    if (S->th.size() < 2) return;
    Thread &t = S->th[S->cur]; auto it = S->sync.find(a); if (it == S->sync.end()) return;
    VC &d = (ord == 2 || ord == 4) ? t.vc : t.acqP;
    for (int i = 0; i < MAXT; i++) d[i] = std::max(d[i], it->second[i]);
}
static void syncRel(u64 a, int ord, bool rmw) {
    Thread &t = S->th[S->cur];
    bool rel = ord == 3 || ord == 4;
    VC src = rel ? t.vc : t.relF;
    if (rmw) { VC &d = S->sync[a]; for (int i = 0; i < MAXT; i++) d[i] = std::max(d[i], src[i]); }
    else S->sync[a] = src;
    if (rel) tick(t);
}
void hbAcquire(u64 key) { syncAcq(key, 4); }
void hbRelease(u64 key) { syncRel(key, 4, true); }
static Val truncLeaf(const Val &v, u32 w, u32 bytes) {                // loaded bytes -> leaf width
    if (w == bytes * 8) return v;
    if (!v.e) return cv(v.c & msk(w));
    return fromE(mkExtract(v.e, 0, w));
}
static Val extLeaf(const Val &v, u32 w, u32 bytes) { if (w == bytes * 8 || !v.e) return v; return fromE(mkZext(v.e, bytes * 8)); }
static E vaddr(const Val &a, u64 k) { return mkAdd(toE(a, 64), mkConst(64, k)); }
static Val offs(const Val &a, u64 k) { if (!a.e) return cv(a.c + k); return fromE(vaddr(a, k)); }

static void doIntrinsic(Inst &in);
static void step(Inst &in) {
    switch (in.op) {
    case I_BIN:
        if (in.n == 1 && !in.fp) { setv(in.dst, binop(in.sub, getv(in.ops[0]), getv(in.ops[1]), in.w)); }
        else for (u32 k = 0; k < in.n; k++) setv(in.dst + k, in.fp ? fbin(in.sub, getv2(in.ops[0], k), getv2(in.ops[1], k), in.w) : binop(in.sub, getv2(in.ops[0], k), getv2(in.ops[1], k), in.w));
        break;
    case I_FNEG: { Val a = getv(in.ops[0]); if (a.e) incomplete("symbolic floating point"); setv(in.dst, cv(a.c ^ (1ull << (in.w - 1)))); break; }
    case I_ICMP: for (u32 k = 0; k < in.n; k++) setv(in.dst + k, icmp(in.sub, getv2(in.ops[0], k), getv2(in.ops[1], k), in.w2)); break;
    case I_FCMP: for (u32 k = 0; k < in.n; k++) setv(in.dst + k, fcmp(in.sub, getv2(in.ops[0], k), getv2(in.ops[1], k), in.w2)); break;
    case I_CAST: for (u32 k = 0; k < in.n; k++) setv(in.dst + k, castv(in, getv2(in.ops[0], k))); break;
    case I_COPY: { for (u32 k = 0; k < in.n; k++) setv(in.dst + k, getv2(in.ops[0], k)); break; }
    case I_INSVAL: {
        for (u32 k = 0; k < in.n; k++) setv(in.dst + k, k >= in.imm && k < in.imm + in.w2 ? getv2(in.ops[1], k - in.imm) : getv2(in.ops[0], k));
        break;
    }
    case I_EXTELT: { u64 i = concr(getv(in.ops[1])); if (i >= in.imm) i = 0; setv(in.dst, getv2(in.ops[0], i)); break; }
    case I_INSELT: { u64 i = concr(getv(in.ops[2])); for (u32 k = 0; k < in.n; k++) setv(in.dst + k, k == i ? getv(in.ops[1]) : getv2(in.ops[0], k)); break; }
    case I_SHUFFLE: { for (u32 k = 0; k < in.n; k++) { int m = in.cases[k].second; setv(in.dst + k, m < 0 ? cv(0) : (u64)m < in.imm ? getv2(in.ops[0], m) : getv2(in.ops[1], m - in.imm)); } break; }
    case I_SELECT: {
        Val c = getv(in.ops[0]);
        if (in.sub) {
            for (u32 k = 0; k < in.n; k++) { Val ck = getv2(in.ops[0], k); if (ck.e) incomplete("symbolic vector select"); setv(in.dst + k, ck.c ? getv2(in.ops[1], k) : getv2(in.ops[2], k)); }
            break;
        }
        bool b;
        if (!c.e) b = c.c & 1;
        else {
            bool ptr = in.n > 1 || (S->addr && (in.isPtr || in.w == 64));
            if (!ptr && in.isPtr) {
                // same-object pointers can stay symbolic
                Val x = getv(in.ops[1]), y = getv(in.ops[2]);
                ptr = x.e || y.e || idOf(x.c) != idOf(y.c);
            }
            if (in.fp) ptr = true;
            if (!ptr) {
                E ce = substVars(c.e, S->known);
                if (ce->op != K_CONST) {
                    Val x = getv(in.ops[1]), y = getv(in.ops[2]);
                    E r = mkIte(ce, toE(x, in.w), toE(y, in.w));
                    setv(in.dst, in.w > 64 ? Val{r, 0} : fromE(r)); break;
                }
                b = ce->val;
            } else b = decide(c.e);
        }
        for (u32 k = 0; k < in.n; k++) setv(in.dst + k, b ? getv2(in.ops[1], k) : getv2(in.ops[2], k));
        break;
    }
    case I_LOAD: {
        Val a = getv(in.ops[0]);
        if (in.ord) { a = cv(concreteAddr(a, in.lay->leaves[0].bytes, false)); syncAcq(a.c, in.ord); }
        if (in.n == 1) { auto &l = in.lay->leaves[0]; setv(in.dst, truncLeaf(loadMem(a, l.bytes, in.ord), l.w, l.bytes)); }
        else {
            if (a.e) a = cv(concreteAddr(a, in.lay->size, false));
            for (u32 k = 0; k < in.n; k++) { auto &l = in.lay->leaves[k]; setv(in.dst + k, truncLeaf(loadMem(offs(a, l.off), l.bytes, in.ord), l.w, l.bytes)); }
        }
        break;
    }
    case I_STORE: {
        Val a = getv(in.ops[0]);
        if (in.ord) { a = cv(concreteAddr(a, in.lay->leaves[0].bytes, true)); }
        if (in.lay->leaves.size() > 1 && a.e) a = cv(concreteAddr(a, in.lay->size, true));
        if (in.ord && S->th.size() > 1) { storeMem(a, in.lay->leaves[0].bytes, extLeaf(getv(in.ops[1]), in.lay->leaves[0].w, in.lay->leaves[0].bytes), true); syncRel(a.c, in.ord, false); break; }
        if (in.ord) { S->sync.erase(a.c); }
        for (u32 k = 0; k < in.lay->leaves.size(); k++) { auto &l = in.lay->leaves[k]; storeMem(offs(a, l.off), l.bytes, extLeaf(getv2(in.ops[1], k), l.w, l.bytes), false); }
        break;
    }
    case I_RMW: {
        u64 a = concreteAddr(getv(in.ops[0]), in.w / 8, true);
        Val v = getv(in.ops[1]);
        bool multi = S->th.size() > 1;
        Val old = loadMem(cv(a), in.w / 8, true), nv;
        switch (in.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, in.w); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, in.w); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, in.w); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, in.w); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v, in.w); break;
        default: incomplete("atomicrmw kind");
        }
        if (multi) syncAcq(a, in.ord);
        storeMem(cv(a), in.w / 8, nv, true);
        if (multi) syncRel(a, in.ord, true);
        setv(in.dst, old);
        break;
    }
    case I_CMPXCHG: {
        u64 a = concreteAddr(getv(in.ops[0]), in.w / 8, true);
        bool multi = S->th.size() > 1;
        Val old = loadMem(cv(a), in.w / 8, true);
        Val eq = icmp(CmpInst::ICMP_EQ, old, getv(in.ops[1]), in.w);
        bool ok = eq.e ? decide(eq.e) : eq.c;
        if (ok && in.weak && multi && S->spurious > 0 && schedChoice(2, true)) { ok = false; S->spurious--; }
        if (multi) syncAcq(a, ok ? in.ord : (int)in.imm);
        if (ok) { storeMem(cv(a), in.w / 8, getv(in.ops[2]), true); if (multi) syncRel(a, in.ord, true); }
        setv(in.dst, old); setv(in.dst + 1, cv(ok));
        break;
    }
    case I_FENCE: {
        Thread &t = S->th[S->cur];
        if (in.ord == 2 || in.ord == 4) for (int i = 0; i < MAXT; i++) t.vc[i] = std::max(t.vc[i], t.acqP[i]);
        if (in.ord == 3 || in.ord == 4) { t.relF = t.vc; tick(t); }
        break;
    }
    case I_GEP: doGep(in); break;
    case I_ALLOCA: {
        u64 n = concr(getv(in.ops[0]));
        u64 a = newObject(in.imm * n, OB_STACK, true);
        Frame &f = S->top(); f.allocas.push_back(a); f.regs[in.dst] = cv(a);
        break;
    }
    case I_BR: branchTo(in.t0); return;
    case I_CONDBR: {
        Val c = getv(in.ops[0]);
        bool b = c.e ? decide(c.e) : (c.c & 1);
        branchTo(b ? in.t0 : in.t1); return;
    }
    case I_SWITCH: {
        Val c = getv(in.ops[0]);
        if (c.e) { E e = substVars(c.e, S->known); c = e->op == K_CONST ? cv((u64)e->val) : Val{e, 0}; }
        if (!c.e) {
            int t = in.t0; for (auto &k : in.cases) if (k.first == c.c) { t = k.second; break; }
            branchTo(t); return;
        }
        for (;;) {
            u64 v = (u64)evalExpr(c.e, S->model);
            int t = in.t0; for (auto &k : in.cases) if (k.first == v) { t = k.second; break; }
            E g = mkBool(t == in.t0);
            for (auto &k : in.cases) {
                E eq = mkEq(c.e, mkConst(in.w2, k.first));
                if (t == in.t0) { if (k.second != t) g = mkAnd(g, mkNot(eq)); }
                else if (k.second == t) g = mkOr(g, eq);
            }
            if (decide(g)) { branchTo(t); return; }
        }
    }
    case I_RET: doRet(in); return;
    case I_UNREACHABLE: violate("unreachable", "reached an unreachable point (undefined behaviour or return from noreturn)");
    case I_LPAD: {
        Thread &t = S->th[S->cur];
        setv(in.dst, cv(t.pendExc)); setv(in.dst + 1, cv(t.pendSel)); break;
    }
    case I_RESUME: { u64 ex = concr(getv(in.ops[0])); unwind(ex, true); return; }
    case I_NOP:
        if (in.I && isa<CallBase>(in.I)) { advance(in); return; }
        break;
    case I_CALL: {
        if (in.callee && in.callee->intr) { doIntrinsic(in); advance(in); return; }
        DFunc *fn = nullptr; unsigned na = in.ops.size();
        if (in.callee) {
            if (in.callee->bi) {
                BStat b = in.callee->bi(in);
                if (b == B_DONE) advance(in);
                return;
            }
            fn = in.callee->fn;
            if (!fn) incomplete("call to undefined external " + in.callee->missing);
        } else {
            na--;
            u64 a = concr(getv(in.ops.back()));
            auto it = g_funcByAddr.find(a);
            if (it == g_funcByAddr.end()) violate("memory", "indirect call through an invalid function pointer");
            fn = it->second;
            Callee *c = resolveCallee(fn->F, "");
            if (c->bi) { BStat b = c->bi(in); if (b == B_DONE) advance(in); return; }
            if (!c->fn) incomplete("indirect call to undefined " + c->missing);
            fn = c->fn;
        }
        callFunction(in, fn, na);
        return;
    }
    case I_UNSUP: { std::string s; raw_string_ostream os(s); in.I->print(os); incomplete("unsupported instruction" + os.str()); }
    default: break;
    }
    S->top().ip++;
}
static Val ctlzv(const Val &a, unsigned w, bool tz) {
    if (!a.e && w <= 64) {
        if (!a.c) return cv(w);
        return cv(tz ? __builtin_ctzll(a.c) : __builtin_clzll(a.c) - (64 - w));
    }
    E e = toE(a, w); E r = mkConst(w, w);
    if (tz) { for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r); return fromE(r); }
    // leading zeros: nested comparisons on magnitude
    r = mkConst(w, 0);
    unsigned top = w;
    r = mkConst(w, w);                                 // e == 0
    for (unsigned b = 0; b < top; b++) {               // e >= 2^b  ->  clz = w-1-b
        u128 lim = (u128)1 << b;
        if (e->hi < lim) break;
        if (e->lo >= lim && b + 1 < top && e->lo >= lim * 2) continue;
        r = mkIte(mkUlt(e, mkConst(w, lim)), r, mkConst(w, w - 1 - b));
    }
    return fromE(r);
}
static void doIntrinsic(Inst &in) {
    unsigned id = in.callee->intr;
    unsigned w = in.w;
    switch (id) {
    case Intrinsic::threadlocal_address: {
        auto *g = cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts());
        setv(in.dst, cv(tlsAddr(g))); return;
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = argc_(in, 2); if (!n) return;
        u64 s = concreteAddr(argv(in, 1), n, false), d = concreteAddr(argv(in, 0), n, true);
        memCopy(d, s, n); return;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = argc_(in, 2); if (!n) return;
        u64 d = concreteAddr(argv(in, 0), n, true); memFill(d, argv(in, 1), n); return;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        Val a = argv(in, 0), b = argv(in, 1);
        bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
        bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
        if (w > 64) incomplete("wide overflow intrinsic");
        unsigned W = mul ? 2 * w : w + 1;
        E x = sg ? mkSext(toE(a, w), W) : mkZext(toE(a, w), W), y = sg ? mkSext(toE(b, w), W) : mkZext(toE(b, w), W);
        E r = mul ? mkMul(x, y) : sub ? mkSub(x, y) : mkAdd(x, y);
        E lo = mkExtract(r, 0, w);
        E ov = mkNe(sg ? mkSext(lo, W) : mkZext(lo, W), r);
        if (!sg && sub) ov = mkUlt(toE(a, w), toE(b, w));
        setv(in.dst, fromE(lo)); setv(in.dst + 1, fromE(ov)); return;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
        Val a = argv(in, 0), b = argv(in, 1);
        if (id == Intrinsic::usub_sat) { E x = toE(a, w), y = toE(b, w); setv(in.dst, fromE(mkIte(mkUlt(x, y), mkConst(w, 0), mkSub(x, y)))); }
        else { E x = toE(a, w), y = toE(b, w), s = mkAdd(x, y); setv(in.dst, fromE(mkIte(mkUlt(s, x), mkConst(w, maskw(w)), s))); }
        return;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        for (u32 k = 0; k < in.n; k++) {
            E x = toE(argvk(in, 0, k), w), y = toE(argvk(in, 1, k), w);
            E lt = id == Intrinsic::umax || id == Intrinsic::umin ? mkUlt(x, y) : mkSlt(x, y);
            bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
            setv(in.dst + k, fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)));
        }
        return;
    }
    case Intrinsic::abs: { E x = toE(argv(in, 0), w); setv(in.dst, fromE(mkIte(mkSlt(x, mkConst(w, 0)), mkSub(mkConst(w, 0), x), x))); return; }
    case Intrinsic::ctlz: { Val r = ctlzv(argv(in, 0), w, false); if (r.e && S->clz) r = cv(concretize(r.e)); setv(in.dst, r); return; }
    case Intrinsic::cttz: setv(in.dst, ctlzv(argv(in, 0), w, true)); return;
    case Intrinsic::ctpop: { Val a = argv(in, 0); if (!a.e) { setv(in.dst, cv(__builtin_popcountll(a.c))); return; } E r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(a.e, i, 1), w)); setv(in.dst, fromE(r)); return; }
    case Intrinsic::bswap: { E a = toE(argv(in, 0), w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } setv(in.dst, fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E a = toE(argv(in, 0), w), b = toE(argv(in, 1), w); u64 s = argc_(in, 2) % w;
        E c = mkConcat(a, b);
        if (2 * w > 128) incomplete("wide fsh");
        setv(in.dst, fromE(id == Intrinsic::fshl ? mkExtract(c, w - s, w) : mkExtract(c, s, w))); return;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
        setv(in.dst, argv(in, 0)); return;
    case Intrinsic::objectsize: setv(in.dst, cv(msk(w))); return;
    case Intrinsic::is_constant: setv(in.dst, cv(0)); return;
    case Intrinsic::fabs: { Val a = argv(in, 0); if (a.e) incomplete("symbolic floating point"); setv(in.dst, cv(a.c & ~(1ull << (w - 1)))); return; }
    case Intrinsic::ceil: { Val a = argv(in, 0); if (a.e) incomplete("symbolic floating point"); setv(in.dst, w == 64 ? cv(ofD(__builtin_ceil(asD(a.c)))) : cv(ofF(__builtin_ceilf(asF(a.c))))); return; }
    case Intrinsic::copysign: { Val a = argv(in, 0), b = argv(in, 1); if (a.e || b.e) incomplete("symbolic floating point"); u64 s = 1ull << (w - 1); setv(in.dst, cv((a.c & ~s) | (b.c & s))); return; }
    case Intrinsic::is_fpclass: {
        Val a = argv(in, 0); if (a.e) incomplete("symbolic floating point");
        unsigned aw = in.argLay[0]->leaves[0].w; u64 mask = argc_(in, 1);
        double d = aw == 64 ? asD(a.c) : asF(a.c); bool neg = __builtin_signbit(d); bool r = false;
        int cls = __builtin_fpclassify(0, 1, 2, 3, 4, d);      // nan inf normal subnormal zero
        if (cls == 0) r = mask & 3; else if (cls == 1) r = mask & (neg ? 4 : 0x200); else if (cls == 2) r = mask & (neg ? 8 : 0x100); else if (cls == 3) r = mask & (neg ? 0x10 : 0x80); else r = mask & (neg ? 0x20 : 0x40);
        setv(in.dst, cv(r)); return;
    }
    case Intrinsic::eh_typeid_for: setv(in.dst, cv(idOf(argc_(in, 0)) & 0x7fffffff)); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violate("abort", "trap");
    case Intrinsic::stacksave: setv(in.dst, cv(0)); return;
    case Intrinsic::stackrestore: return;
    case Intrinsic::vastart: {
        u64 va = argc_(in, 0);
        Frame &f = S->top();
        u64 n = std::max<size_t>(f.va.size(), 1) * 8;
        u64 o = newObject(n, OB_STACK, true);
        S->top().allocas.push_back(o);
        auto v = S->top().va;
        for (size_t i = 0; i < v.size(); i++) rawStore(idOf(o), i * 8, 8, v[i].first.e && v[i].first.e->w < 64 ? fromE(mkZext(v[i].first.e, 64)) : v[i].first);
        store32(va, 48); store32(va + 4, 304); store64(va + 8, o); store64(va + 16, 0);
        return;
    }
    case Intrinsic::vacopy: memCopy(argc_(in, 0), argc_(in, 1), 24); return;
    default: {
        std::string s; raw_string_ostream os(s); in.I->print(os); incomplete("unsupported intrinsic" + os.str());
    }
    }
}

// ---------------------------------------------------------------- scheduler
static bool enabled(int i) {
    Thread &t = S->th[i];
    if (t.stat == T_DONE) return false;
    if (t.stat == T_RUN) return true;
    switch (t.wk) {
    case W_MUTEX: { auto it = S->mtx.find(t.wait); return it == S->mtx.end() || it->second.owner < 0; }
    case W_SEM: return S->sems[t.wait] > 0;
    case W_JOIN: return S->th[t.wait].stat == T_DONE;
    case W_ONCE: { u64 id = idOf(t.wait); Obj *o = S->mem.get(id); Val v = rawLoad(id, o, offOf(t.wait), 4); return (u32)v.c != 1; }
    case W_YIELD: return true;
    default: return false;
    }
}
int schedChoice(int n, bool) {
    if (n <= 1) return 0;
    int k = S->sched.size();
    if (g_cfg.replay) {
        int c = k < (int)g_cfg.replaySched.size() ? g_cfg.replaySched[k] : 0;
        if (c >= n) c = 0;
        S->sched.push_back(c); return c;
    }
    if (S->pend >= 0) { int c = S->pend; S->pend = -1; S->sched.push_back(c); return c; }
    char nm[32]; snprintf(nm, sizeof nm, "sched#%d.%d", k, n);
    E v = freshVar(8, nm, 0, n - 1, false);
    g_st.choices++;
    for (int i = n - 1; i >= 1; i--) {
        Model m = S->model;
        E c = mkEq(v, mkConst(8, i));
        if (solveMay(S->cons, c, m) != YES) continue;
        State *ch = cloneState(); State *old = S; S = ch; ch->model = m; addCons(c); ch->pend = i; S = old;
        g_work.push_back(ch); g_st.forks++;
    }
    addCons(mkEq(v, mkConst(8, 0)));
    S->sched.push_back(0);
    return 0;
}
static void switchTo(int opt) {
    int i = opt & 0x3f;
    Thread &t = S->th[i];
    if (opt & 0xc0) { t.timedOut = opt & 0x40; t.wk = W_NONE; t.timed = false; if (t.saved) { t.wk = W_MUTEX; t.wait = t.saved; if (!enabled(i)) return; } }
    if (i != S->cur) t.seen.clear();
    t.stat = T_RUN; t.wk = W_NONE; t.schedDone = true; S->cur = i;
}
static void applyChoice(int o, bool canRun, bool forced) {
    if (o & 0xc0) {                                      // 0x40: a timed wait times out; 0x80: a wait wakes for no reason
        if (o & 0x80) S->spurious--; else if (S->timeouts > 0) S->timeouts--;
        if (canRun && !forced) { S->preempts++; }
        switchTo(o);
        return;
    }
    if (canRun && !forced && o != S->cur) S->preempts++;
    switchTo(o);
}
// choose the next thread; canRun: current thread could continue
i64 g_fairFrom = -1, g_fairLeft = 0;
static void schedule(bool canRun, bool forced) {
    std::vector<int> opts;
    if ((i64)++S->calls >= g_fairFrom && g_fairFrom >= 0) g_fair = true;
    if (g_fair) {                                        // any thread that can run, at random
        static u64 rng = 88172645463325252ull;
        if (--g_fairLeft <= 0) throw PathEnd{};
        for (int i = 0; i < (int)S->th.size(); i++) if (i == S->cur ? canRun : enabled(i)) opts.push_back(i);
        if (opts.empty()) for (int i = 0; i < (int)S->th.size(); i++) if (S->th[i].stat == T_BLOCK && S->th[i].timed && S->th[i].wk != W_MUTEX) opts.push_back(i | 0x40);
        if (opts.empty()) throw PathEnd{};
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        applyChoice(opts[rng % opts.size()], canRun, true);
        return;
    }
    if (S->merge) { if (S->maxPre < 0 && !(g_cfg.replay && S->sched.size() >= g_cfg.replaySched.size())) forced = false; if (mergePoint(canRun)) forced = true; }
    int cur = S->cur, n = S->th.size();
    if (canRun && !forced) opts.push_back(cur);
    bool may = !canRun || forced || S->maxPre < 0 || S->preempts < S->maxPre;
    if (may) for (int d = 1; d < n; d++) { int i = (cur + d) % n; if (enabled(i)) { opts.push_back(i); if (forced && !S->merge) break; } }
    if (may && !forced) for (int i = 0; i < n; i++) {
        Thread &t = S->th[i];
        if (t.stat != T_BLOCK || t.wk == W_MUTEX) continue;
        if (t.timed && S->timeouts > 0) opts.push_back(i | 0x40);
        if (t.wk == W_COND && S->spurious > 0) opts.push_back(i | 0x80);
    }
    if (opts.empty() && canRun) opts.push_back(cur);
    if (opts.empty()) {
        for (int i = 0; i < n; i++) if (S->th[i].stat == T_BLOCK && S->th[i].timed && S->th[i].wk != W_MUTEX) opts.push_back(i | 0x40);
        if (opts.empty()) {
            std::string m = "no thread can make progress:";
            for (int i = 0; i < n; i++) if (S->th[i].stat == T_BLOCK) { static const char *k[] = {"", "mutex", "semaphore", "join", "condition", "futex", "once", "yield"}; S->cur = i; m += " [thread " + std::to_string(i) + " waits for " + k[S->th[i].wk] + " at " + topLoc() + "]"; }
            for (int i = 0; i < n; i++) if (S->th[i].stat == T_BLOCK) { S->cur = i; break; }
            violate("deadlock", m);
        }
        if (S->forcedTimeouts-- <= 0) {
            std::string m = "nothing happens any more but time-outs:";
            for (int i = 0; i < n; i++) if (S->th[i].stat == T_BLOCK && !S->th[i].timed) { S->cur = i; m += " [thread " + std::to_string(i) + " waits at " + topLoc() + "]"; }
            violate("livelock", m);
        }
    }
    if (S->det) opts.resize(1);
    if (opts.size() > 1) { S->opts = opts; S->optCan = canRun; S->optForced = forced; }
    int c = schedChoice(opts.size(), false);
    S->opts.clear();
    applyChoice(opts[c], canRun, forced);
}
static void visPoint(Inst &in) {
    Thread &t = S->th[S->cur];
    S->visOps++;
    bool forced = false;
    int &k = t.spin[&in];
    if ((!S->merge || g_cfg.replay && S->sched.size() >= g_cfg.replaySched.size()) && ++k > S->spinLimit) { forced = true; t.spin.clear(); }
    schedule(true, forced);
}
void yieldPoint() { schedule(true, true); }
void threadReturn() {
    Thread &t = S->th[S->cur];
    if (!t.atexit.empty()) {
        auto a = t.atexit.back(); t.atexit.pop_back();
        auto it = g_funcByAddr.find(a[0]); if (it == g_funcByAddr.end()) incomplete("thread atexit");
        pushCallback(it->second, {a[1]});
        return;
    }
    t.stat = T_DONE;
    if (S->cur == 0) { S->ended = true; return; }
    tick(t);
}
int newThread(DFunc *f, u64 arg) {
    if (S->th.size() >= MAXT) incomplete("too many threads");
    int id = S->th.size(), par = S->cur;
    S->th.push_back(Thread());
    Thread &n = S->th[id];
    n.vc = S->th[par].vc; n.vc[id] = 1;
    S->th[par].vc[par]++;
    S->cur = id; Frame &fr = pushFrame(f); fr.regs[0] = cv(arg); S->cur = par;
    g_st.maxThreads = std::max<u64>(g_st.maxThreads, S->th.size());
    return id;
}
void runState() {
    u64 limit = S->stepLimit;
    while (!S->ended) {
        if (S->pend >= 0 && !S->opts.empty()) { int c = S->pend; S->pend = -1; S->sched.push_back(c); int o = S->opts[c]; S->opts.clear(); applyChoice(o, S->optCan, S->optForced); continue; }
        Thread &t = S->th[S->cur];
        if (t.stat != T_RUN) { schedule(false, false); continue; }
        Frame &f = *t.st.back();
        Inst &in = f.f->bb[f.bb].in[f.ip];
        if (in.vis && !t.schedDone && S->th.size() > 1) { visPoint(in); continue; }
        int me = S->cur;
        S->steps++;
        if (S->steps > (S->stepLimit ? S->stepLimit : g_cfg.maxSteps)) violate("hang", "no termination within " + std::to_string(S->steps - 1) + " instructions");
        if ((S->steps & 0xfff) == 0) checkLimits();
        g_st.steps++;
        step(in);
        if (in.vis) S->th[me].schedDone = false;
    }
    (void)limit;
}
