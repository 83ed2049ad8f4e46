// State merging for multi-threaded exploration: states that agree on memory, thread stacks (live registers only), synchronisation
// objects and path constraints have the same futures, so only one of them is continued.
#include "engine.h"
#include "llvm/IR/CFG.h"
using namespace llvm;
bool g_wasMerged = false, g_fair = false; int g_fairRuns = 0;
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u64 hashBytes(const u8 *p, u64 n, u64 h) {
    while (n >= 8) { u64 v; memcpy(&v, p, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; p += 8; n -= 8; }
    u64 v = 0; memcpy(&v, p, n); return mix(h, v ^ (n << 56));
}
static u64 hashPage(Page *p) {
    if (p->hd) return p->h;
    u64 h = hashBytes(p->data(), p->n, 17);
    if (p->hasTag) {
        h = hashBytes(p->tag(), p->n, h);
        if (p->sym) for (u32 i = 0; i < p->n; i++) if (p->tag()[i] == 1) h = mix(h, (u64)(uintptr_t)p->sym[i]);
    }
    p->h = h; p->hd = true; return h;
}
static u64 hashMem(const Mem &m) {
    u64 h = 1;
    for (size_t t = 0; t < m.top.size(); t++) {
        L2 *a = m.top[t]; if (!a) continue;
        if (!a->hd) {
            u64 x = t;
            for (int j = 0; j < 1024; j++) {
                L1 *b = a->c[j]; if (!b) continue;
                if (!b->hd) {
                    u64 y = 5; bool any = false;
                    for (int k = 0; k < 64; k++) {
                        Obj *o = b->o[k]; if (!o) continue;
                        any = true;
                        y = mix(y, k | (u64)o->freed << 8 | (u64)o->kind << 16);
                        if (o->freed) continue;
                        y = mix(y, o->size);
                        for (u32 i = 0; i < o->np; i++) y = mix(y, hashPage(o->pg[i]));
                    }
                    b->h = any ? y : 0; b->hd = true;
                }
                if (b->h) x = mix(mix(x, j), b->h);
            }
            a->h = x; a->hd = true;
        }
        h = mix(h, a->h);
    }
    return h;
}
static const std::vector<int> &liveRegs(DFunc *d, int bb, int ip, bool after) {
    u64 key = (u64)bb << 32 | (u64)ip << 1 | after;
    auto it = d->liveAt.find(key);
    if (it != d->liveAt.end()) return it->second;
    auto use = [&](const Value *v, std::vector<bool> &s) { auto i = d->slotOf.find(v); if (i != d->slotOf.end()) for (u32 k = 0; k < i->second.second; k++) s[i->second.first + k] = true; };
    auto def = [&](const Value *v, std::vector<bool> &s) { auto i = d->slotOf.find(v); if (i != d->slotOf.end()) for (u32 k = 0; k < i->second.second; k++) s[i->second.first + k] = false; };
    if (d->liveOut.empty()) {
        size_t n = d->bb.size(); std::vector<std::vector<bool>> in(n, std::vector<bool>(d->nregs)), out(n, std::vector<bool>(d->nregs));
        std::unordered_map<const BasicBlock *, int> idx; for (size_t i = 0; i < n; i++) idx[d->bb[i].bb] = i;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = n; i-- > 0;) {
                const BasicBlock *B = d->bb[i].bb; std::vector<bool> o(d->nregs);
                for (const BasicBlock *X : successors(B)) {
                    std::vector<bool> t = in[idx[X]];
                    for (const PHINode &P : X->phis()) def(&P, t);
                    for (const PHINode &P : X->phis()) use(P.getIncomingValueForBlock(B), t);
                    for (u32 k = 0; k < d->nregs; k++) if (t[k]) o[k] = true;
                }
                out[i] = o;
                for (auto r = B->rbegin(); r != B->rend(); ++r) { if (isa<PHINode>(*r)) break; def(&*r, o); for (const Use &u : r->operands()) use(u.get(), o); }
                if (o != in[i]) { in[i] = o; ch = true; }
            }
        }
        d->liveOut = out;
    }
    std::vector<bool> s = d->liveOut[bb]; const Instruction *at = d->bb[bb].in[ip].I;
    const BasicBlock *B = d->bb[bb].bb;
    for (auto r = B->rbegin(); r != B->rend(); ++r) {
        if (&*r == at && after) { def(&*r, s); break; }
        def(&*r, s); for (const Use &u : r->operands()) use(u.get(), s);
        if (&*r == at) break;
    }
    auto &v = d->liveAt[key];
    for (u32 k = 0; k < d->nregs; k++) if (s[k]) v.push_back(k);
    return v;
}
static u64 hashVal(u64 h, const Val &v) { return v.e ? mix(h, (u64)(uintptr_t)v.e ^ 0x5555) : mix(h, v.c); }
static u64 hashState(bool canRun) {
    u64 h = hashMem(S->mem);
    h = mix(h, S->th.size());
    for (size_t i = 0; i < S->th.size(); i++) {
        Thread &t = S->th[i];
        h = mix(h, t.stat | t.wk << 8 | t.timed << 16 | t.timedOut << 17 | t.detached << 18 | t.phase << 20); h = mix(h, t.wait); h = mix(h, t.saved);
        h = mix(h, t.pendExc); h = mix(h, t.pendSel); h = mix(h, t.uncaught); h = mix(h, t.heapNext); h = mix(h, t.stackNext);
        for (auto &c : t.caught) h = mix(mix(h, c.addr), c.count);
        for (auto &c : t.atexit) h = mix(mix(h, c[0]), c[1]);
        u64 tl = 0; for (auto &c : t.tls) tl += mix((u64)(uintptr_t)c.first, c.second); h = mix(h, tl);
        h = mix(h, t.st.size());
        for (size_t k = 0; k < t.st.size(); k++) {
            Frame &f = *t.st[k]; bool top = k + 1 == t.st.size();
            h = mix(h, (u64)(uintptr_t)f.f); h = mix(h, (u64)f.bb << 32 | f.ip << 3 | f.plain << 2 | f.again << 1 | f.hasRetv);
            h = mix(h, f.onceAddr); h = mix(h, f.freeOnRet); if (f.hasRetv) h = hashVal(h, f.retv);
            for (int r : liveRegs(f.f, f.bb, f.ip, !top && !t.st[k + 1]->plain)) h = hashVal(h, f.regs[r]);
            for (auto &v : f.va) h = hashVal(h, v.first);
            for (u64 a : f.allocas) h = mix(h, a);
        }
    }
    u64 m = 0; for (auto &x : S->mtx) if (x.second.owner >= 0) m += mix(mix(x.first, x.second.owner), x.second.depth); h = mix(h, m);
    m = 0; for (auto &x : S->sems) if (x.second) m += mix(mix(3, x.first), x.second); h = mix(h, m);
    m = 0; for (auto &x : S->exc) m += mix(mix(mix(mix(7, x.first), x.second.tinfo), x.second.refs), x.second.rethrown); h = mix(h, m);
    for (auto &x : S->occ) { for (char c : x.first) h = mix(h, c); h = mix(h, x.second); }
    for (auto &x : S->atexit) h = mix(mix(h, x[0]), x[1]);
    h = mix(h, S->consHash); h = mix(h, S->timeouts); h = mix(h, S->forcedTimeouts); h = mix(h, S->spurious);
    h = mix(h, S->maxPre); h = mix(h, S->clock);
    if (S->maxPre >= 0) h = mix(mix(h, S->cur), canRun);
    return h;
}
// a node keeps the history that reaches it: its schedule as a leaf of a tree of choices, its inputs shared with other nodes
struct Node { Model model; const std::vector<u32> *inputs; u32 leaf, calls; u8 threads; bool term; };
static std::vector<std::pair<u32, u8>> g_tree{{0, 0}}; static std::unordered_map<u64, u32> g_treeIdx; static std::set<std::vector<u32>> g_inputSets;
static u32 leafOf(const std::vector<u8> &s) {
    u32 x = 0;
    for (u8 c : s) { auto i = g_treeIdx.emplace((u64)x << 8 | c, (u32)g_tree.size()); if (i.second) g_tree.push_back({x, c}); x = i.first->second; }
    return x;
}
static std::vector<u8> schedOf(u32 x) { std::vector<u8> r; for (; x; x = g_tree[x].first) r.push_back(g_tree[x].second); std::reverse(r.begin(), r.end()); return r; }
static std::unordered_map<u64, u32> g_node; static std::vector<Node> g_nodes; static std::vector<std::pair<u32, u32>> g_edges;
static std::unordered_map<u64, int> g_vis, g_visForced;
static bool intoNode(u64 key) {
    auto ins = g_node.emplace(key, (u32)g_nodes.size());
    if (ins.second) { g_nodes.push_back({S->model, &*g_inputSets.insert(S->inputs).first, leafOf(S->sched), (u32)S->calls, (u8)S->th.size(), false}); g_st.nodes++; g_memBytes += 240; }
    if (S->node >= 0) g_edges.push_back({(u32)S->node, ins.first->second});
    S->node = ins.first->second;
    return ins.second;
}
// 1: the current thread came back to a state it was already in since it was last switched in (spinning)
int mergePoint(bool canRun) {
    if (g_fair) return 0;
    u64 h = hashState(canRun); checkLimits();
    if (S->maxPre < 0) {
        if (g_cfg.replay) return 0;
        if (!intoNode(h)) { g_st.merged++; g_wasMerged = true; throw PathEnd{}; }
        return 0;
    }
    Thread &t = S->th[S->cur];
    bool spin = canRun && !t.seen.insert(h).second;
    if (g_cfg.replay) { if (spin) t.seen.clear(); return spin; }
    int left = S->maxPre - S->preempts;
    auto &map = spin ? g_visForced : g_vis;
    auto ins = map.emplace(h, left);
    intoNode(spin ? mix(h, 77) : h);
    if (!ins.second) {
        if (ins.first->second >= left) { g_st.merged++; g_wasMerged = true; throw PathEnd{}; }
        ins.first->second = left;
    }
    if (spin) t.seen.clear();
    return spin;
}
void mergeEnd() { if (S->node >= 0) g_nodes[S->node].term = true; }
// every reachable state must be able to reach the end of the run; otherwise some threads are stuck for ever (livelock).  With
// unlimited preemptions the explored graph decides this; with a bound, a candidate must also fail to finish under a fair scheduler.
void mergeFinish() {
    if (g_nodes.empty()) return;
    size_t N = g_nodes.size();
    std::vector<std::vector<u32>> pred(N); std::vector<u32> q; std::vector<bool> ok(N);
    for (auto &e : g_edges) pred[e.second].push_back(e.first);
    auto flow = [&]() { while (!q.empty()) { u32 x = q.back(); q.pop_back(); for (u32 p : pred[x]) if (!ok[p]) { ok[p] = true; q.push_back(p); } } };
    for (u32 i = 0; i < N; i++) if (g_nodes[i].term) { ok[i] = true; q.push_back(i); }
    flow();
    bool bounded = !g_vis.empty(); int tries = 0;
    for (u32 i = 0; i < N; i++) if (!ok[i]) {
        Node n = g_nodes[i];
        if (bounded) {
            if (++tries > 40) { g_incomplete["possible livelocks left undecided"]++; return; }
            std::map<std::string, u64> in; for (u32 k : *n.inputs) in[g_vars[k].name] = k < n.model->size() ? (*n.model)[k] : 0;
            if (fairRun(in, schedOf(n.leaf), n.calls)) { g_fairRuns++; ok[i] = true; q.push_back(i); flow(); continue; }
        }
        Violation v; v.id = "livelock"; v.msg = "reached a state from which no schedule lets the run finish"; v.loc = "?"; v.count = 1; v.threads = n.threads; v.sched = schedOf(n.leaf);
        for (u32 k : *n.inputs) v.inputs.push_back({g_vars[k].name, k < n.model->size() ? (*n.model)[k] : 0});
        g_viol.push_back(v); return;
    }
}
