#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <set>
#include <map>
#include <cstring>

std::vector<VarInfo> g_vars;
u64 g_exprs = 0;

struct HashE { size_t operator()(E e) const { return e->hash; } };
struct EqE {
    bool operator()(E x, E y) const {
        return x->hash == y->hash && x->op == y->op && x->w == y->w && x->ext == y->ext && x->a == y->a &&
               x->b == y->b && x->c == y->c && x->val == y->val;
    }
};
static std::unordered_set<E, HashE, EqE> &table() {
    static std::unordered_set<E, HashE, EqE> *t = new std::unordered_set<E, HashE, EqE>(1 << 16);
    return *t;
}
static Expr *newNode() {
    static Expr *blk = nullptr; static size_t left = 0;
    if (!left) { left = 4096; blk = (Expr *)malloc(sizeof(Expr) * left); }
    --left;
    return blk++;
}
static unsigned bitlen(u128 v) {
    if (!v) return 0;
    u64 h = (u64)(v >> 64);
    return h ? 128 - __builtin_clzll(h) : 64 - __builtin_clzll((u64)v);
}
static unsigned ctz128(u128 v, unsigned w) {
    if (!v) return w;
    u64 l = (u64)v;
    return l ? __builtin_ctzll(l) : 64 + __builtin_ctzll((u64)(v >> 64));
}
static void computeRange(Expr *e) {
    u128 M = maskw(e->w);
    e->lo = 0; e->hi = M; e->tz = 0;
    E a = e->a, b = e->b;
    switch (e->op) {
    case K_CONST: e->lo = e->hi = e->val; e->tz = ctz128(e->val, e->w); break;
    case K_VAR: e->lo = g_vars[e->ext].lo; e->hi = g_vars[e->ext].hi; break;
    case K_ADD: {
        e->tz = std::min(a->tz, b->tz);
        if (e->w < 128) {
            u128 h = a->hi + b->hi, l = a->lo + b->lo;
            if (h <= M) { e->lo = l; e->hi = h; }
            else if (l > M) { e->lo = l & M; e->hi = h & M; }   // both always wrap exactly once
        }
        break;
    }
    case K_MUL: {
        e->tz = std::min<unsigned>(e->w, a->tz + b->tz);
        if (bitlen(a->hi) + bitlen(b->hi) <= e->w || (e->w <= 64 && a->hi * b->hi <= M)) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; }
        break;
    }
    case K_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case K_UREM:
        if (b->lo > 0) {
            e->hi = std::min(a->hi, b->hi - 1);
            if (b->op == K_CONST && a->hi / b->val == a->lo / b->val) { e->lo = a->lo % b->val; e->hi = a->hi % b->val; }
        }
        break;
    case K_AND: e->hi = std::min(a->hi, b->hi); e->tz = std::max(a->tz, b->tz); break;
    case K_OR: {
        e->lo = std::max(a->lo, b->lo);
        e->hi = std::min(M, maskw(std::max(bitlen(a->hi), bitlen(b->hi))));
        e->tz = std::min(a->tz, b->tz);
        break;
    }
    case K_XOR: e->hi = std::min(M, maskw(std::max(bitlen(a->hi), bitlen(b->hi)))); e->tz = std::min(a->tz, b->tz); break;
    case K_SHL:
        e->tz = a->tz;
        if (b->op == K_CONST && b->val < e->w) {
            e->tz = std::min<unsigned>(e->w, a->tz + (unsigned)b->val);
            if (bitlen(a->hi) + (unsigned)b->val <= e->w) { e->lo = a->lo << (unsigned)b->val; e->hi = a->hi << (unsigned)b->val; }
        }
        break;
    case K_LSHR:
        e->hi = a->hi;
        if (b->lo < e->w) e->hi = a->hi >> (unsigned)b->lo;
        if (b->op == K_CONST && b->val < e->w) e->lo = a->lo >> (unsigned)b->val;
        break;
    case K_ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); e->tz = std::min(b->tz, e->c->tz); break;
    case K_CONCAT:
        e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi;
        e->tz = b->tz >= b->w ? std::min<unsigned>(e->w, b->w + a->tz) : b->tz;
        break;
    case K_EXTRACT:
        if (e->ext + e->w >= a->w || bitlen(a->hi) <= e->ext + e->w) {
            e->lo = a->lo >> e->ext; e->hi = a->hi >> e->ext;
        } else {
            u128 top = a->hi >> (e->ext + e->w);
            if ((a->lo >> (e->ext + e->w)) == top) { e->lo = (a->lo >> e->ext) & M; e->hi = (a->hi >> e->ext) & M; }
        }
        e->tz = a->tz > e->ext ? std::min<unsigned>(e->w, a->tz - e->ext) : 0;
        break;
    case K_ZEXT: e->lo = a->lo; e->hi = a->hi; e->tz = a->tz >= a->w ? e->w : a->tz; break;
    case K_SEXT:
        e->tz = a->tz >= a->w ? e->w : a->tz;
        if (a->lo >> (a->w - 1)) { e->lo = (u128)sext128(a->lo, a->w) & M; e->hi = (u128)sext128(a->hi, a->w) & M; }
        else if (!(a->hi >> (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; }
        break;
    case K_ASHR: if (!(a->hi >> (e->w - 1))) { e->hi = a->hi; if (b->lo < e->w) e->hi = a->hi >> (unsigned)b->lo; } break;
    case K_SDIV: case K_SREM: break;
    default: break;
    }
}
E mkConst(unsigned w, u128 v);
static E intern(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, u128 val = 0, u32 ext = 0) {
    Expr t; memset((void *)&t, 0, sizeof t);
    t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val; t.ext = ext;
    size_t h = op * 0x9E3779B97F4A7C15ull + w * 1315423911u + ext * 2654435761u;
    auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix(a ? a->id * 0x9E3779B1ull : 7); mix(b ? b->id * 0x85EBCA77ull : 11); mix(c ? c->id * 0xC2B2AE3Dull : 13);
    mix((u64)val); mix((u64)(val >> 64));
    t.hash = h;
    auto &T = table();
    auto it = T.find(&t);
    if (it != T.end()) return *it;
    if (op != K_CONST && op != K_VAR) { computeRange(&t); if (t.lo == t.hi) return mkConst(w, t.lo); }
    Expr *n = newNode();
    t.lo = t.hi = 0; t.tz = 0; *n = t;
    n->id = (u32)++g_exprs;
    n->z3 = nullptr; n->epoch = 0; n->sup = nullptr;
    n->depth = 1 + std::max(a ? a->depth : 0, std::max(b ? b->depth : 0, c ? c->depth : 0));
    computeRange(n);
    T.insert(n);
    return n;
}
E mkConst(unsigned w, u128 v) { return intern(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(unsigned w, const std::string &name, u64 lo, u64 hi) {
    if (w < 64 && hi > maskw(w)) hi = (u64)maskw(w);
    static std::unordered_map<std::string, u32> byName;
    auto ins = byName.emplace(name + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi), (u32)g_vars.size());
    if (!ins.second) return g_vars[ins.first->second].e;
    u32 idx = g_vars.size();
    g_vars.push_back({name, w, nullptr, lo, hi});
    E e = intern(K_VAR, w, nullptr, nullptr, nullptr, 0, idx);
    g_vars[idx].e = e;
    return e;
}
static inline bool isC(E e) { return e->op == K_CONST; }
// if range says single value
static E collapse(E e) {
    if (e->op != K_CONST && e->lo == e->hi) return mkConst(e->w, e->lo);
    return e;
}
static bool smallIteConst(E e) { return e->op == K_ITE && isC(e->b) && isC(e->c); }

// ---------- linear sums without overflow: e == k + sum(coef*term), all within unsigned range
struct Lin { u128 k = 0; std::vector<std::pair<E, u128>> t; };
static bool linear(E e, u128 mul, Lin &L, int depth) {
    if (depth > 40 || L.t.size() > 64) return false;
    switch (e->op) {
    case K_CONST: L.k += e->val * mul; return true;
    case K_ADD:
        if (e->w < 128 && e->a->hi + e->b->hi <= maskw(e->w))
            return linear(e->a, mul, L, depth + 1) && linear(e->b, mul, L, depth + 1);
        break;
    case K_MUL:
        if (isC(e->b) && bitlen(e->a->hi) + bitlen(e->b->val) <= e->w) return linear(e->a, mul * e->b->val, L, depth + 1);
        if (isC(e->b) && e->w <= 64 && e->a->hi * e->b->val <= maskw(e->w)) return linear(e->a, mul * e->b->val, L, depth + 1);
        break;
    case K_SHL:
        if (isC(e->b) && e->b->val < e->w && bitlen(e->a->hi) + (unsigned)e->b->val <= e->w)
            return linear(e->a, mul << (unsigned)e->b->val, L, depth + 1);
        break;
    case K_ZEXT: return linear(e->a, mul, L, depth + 1);
    case K_SEXT: if (!(e->a->hi >> (e->a->w - 1))) return linear(e->a, mul, L, depth + 1); break;
    case K_EXTRACT:
        if (e->ext == 0 && e->a->hi <= maskw(e->w)) return linear(e->a, mul, L, depth + 1);
        break;
    case K_CONCAT:
        if (isC(e->b) && e->b->val == 0) return linear(e->a, mul << e->b->w, L, depth + 1);
        break;
    default: break;
    }
    L.t.push_back({e, mul});
    return true;
}
static E fit(E e, unsigned w) {
    if (e->w == w) return e;
    if (e->w < w) return mkZext(e, w);
    return mkExtract(e, 0, w);
}
static E linSum(const Lin &L, unsigned w) {
    E r = nullptr;
    for (auto &p : L.t) {
        E t = mkMul(fit(p.first, w), mkConst(w, p.second));
        r = r ? mkAdd(r, t) : t;
    }
    E k = mkConst(w, L.k);
    return r ? mkAdd(r, k) : k;
}
// quotient/remainder split of a linear sum by constant d
static bool linDiv(E a, u128 d, E &q, E &r) {
    if (a->w > 64 || d < 2) return false;
    Lin L;
    if (!linear(a, 1, L, 0)) return false;
    if (L.t.size() < 2 && !(L.t.size() == 1 && (L.t[0].second > 1 || L.k))) return false;
    Lin Q, R; u128 rhi = 0;
    // combine equal terms
    std::map<u32, std::pair<E, u128>> comb;
    for (auto &p : L.t) { auto &x = comb[p.first->id]; x.first = p.first; x.second += p.second; }
    for (auto &kv : comb) {
        u128 cf = kv.second.second; E t = kv.second.first;
        u128 qc = cf / d, rc = cf % d;
        if (qc) Q.t.push_back({t, qc});
        if (rc) { R.t.push_back({t, rc}); rhi += rc * t->hi; }
    }
    Q.k = L.k / d; R.k = L.k % d; rhi += R.k;
    if (rhi >= d) return false;
    if (Q.t.empty() && R.t.size() == L.t.size()) { /* a < d */ }
    q = linSum(Q, a->w); r = linSum(R, a->w);
    return true;
}

static u128 maxCoef(E a) {
    Lin L; if (!linear(a, 1, L, 0)) return 0;
    u128 m = 0; for (auto &p : L.t) if (p.second > m) m = p.second;
    return m;
}
// modular linear form at width w: equal terms of a sum with negative coefficients cancel
static void modlin(E e, u128 c, unsigned w, u128 &k, std::map<u32, std::pair<E, u128>> &t, int &n, int depth) {
    n++;
    if (depth < 60 && n < 200) switch (e->op) {
    case K_CONST: k += e->val * c; return;
    case K_ADD: if (e->w >= w || e->a->hi + e->b->hi <= maskw(e->w)) { modlin(e->a, c, w, k, t, n, depth + 1); modlin(e->b, c, w, k, t, n, depth + 1); n--; return; } break;
    case K_MUL: if (isC(e->b) && (e->w >= w || (bitlen(e->a->hi) + bitlen(e->b->val) <= e->w))) { modlin(e->a, c * e->b->val, w, k, t, n, depth + 1); n--; return; } break;
    case K_ZEXT: modlin(e->a, c, w, k, t, n, depth + 1); n--; return;
    case K_EXTRACT: if (e->ext == 0 && (e->w >= w || e->a->hi <= maskw(e->w))) { modlin(e->a, c, w, k, t, n, depth + 1); n--; return; } break;
    default: break;
    }
    auto &x = t[e->id]; x.first = e; x.second += c;
}
static bool hasNeg(E e, int depth) {
    if (e->op == K_MUL) return isC(e->b) && (e->b->val >> (e->w - 1));
    if (e->op == K_ADD && depth < 40) return hasNeg(e->b, depth + 1) || hasNeg(e->a, depth + 1);
    return false;
}
static E cancelSum(E a, E b) {
    unsigned w = a->w;
    if (w > 64 || w < 8 || !(hasNeg(a, 0) || hasNeg(b, 0))) return nullptr;
    std::map<u32, std::pair<E, u128>> t; u128 k = 0; int n = 0;
    modlin(a, 1, w, k, t, n, 0); modlin(b, 1, w, k, t, n, 0);
    Lin L; L.k = k & maskw(w); size_t zero = 0;
    for (auto &kv : t) { u128 c = kv.second.second & maskw(w); if (c) L.t.push_back({kv.second.first, c}); else zero++; }
    if (!zero) return nullptr;                        // nothing cancelled
    return linSum(L, w);
}
E mkAdd(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->val + b->val);
        if (b->val == 0) return a;
        if (a->op == K_ADD && isC(a->b)) return mkAdd(a->a, mkConst(w, a->b->val + b->val));
        if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val + b->val), mkConst(w, a->c->val + b->val));
        if (w == 1) return mkXor(a, b);
        return intern(K_ADD, w, a, b);
    }
    if (w == 1) return mkXor(a, b);
    if (a->op == K_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->op == K_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    // x + (-1)*x
    if (b->op == K_MUL && isC(b->b) && b->a == a) return mkMul(a, mkConst(w, b->b->val + 1));
    if (a->op == K_MUL && isC(a->b) && a->a == b) return mkMul(b, mkConst(w, a->b->val + 1));
    if (a == b) return mkMul(a, mkConst(w, 2));
    if (a->op == K_MUL && b->op == K_MUL && isC(a->b) && isC(b->b) && a->a == b->a) return mkMul(a->a, mkConst(w, a->b->val + b->b->val));
    // cancel within sums: (x + y) + (-x)
    auto cancel = [&](E s, E t) -> E {
        if (s->op != K_ADD || t->op != K_MUL || !isC(t->b) || t->b->val != maskw(w)) return nullptr;
        if (s->a == t->a) return s->b;
        if (s->b == t->a) return s->a;
        return nullptr;
    };
    if (E r = cancel(a, b)) return r;
    if (E r = cancel(b, a)) return r;
    if (E r = cancelSum(a, b)) return r;
    if (a->id > b->id) std::swap(a, b);
    return intern(K_ADD, w, a, b);
}
E mkSub(E a, E b) {
    unsigned w = a->w;
    if (a == b) return mkConst(w, 0);
    if (isC(b)) return mkAdd(a, mkConst(w, (u128)0 - b->val));
    return mkAdd(a, mkMul(b, mkConst(w, maskw(w))));
}
E mkMul(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->val * b->val);
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if (w == 1) return mkAnd(a, b);
        if (a->op == K_MUL && isC(a->b)) return mkMul(a->a, mkConst(w, a->b->val * b->val));
        if (a->op == K_ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkConst(w, a->b->val * b->val));
        if (a->op == K_ADD && b->val == maskw(w)) return mkAdd(mkMul(a->a, b), mkMul(a->b, b));
        if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val * b->val), mkConst(w, a->c->val * b->val));
        return intern(K_MUL, w, a, b);
    }
    if (w == 1) return mkAnd(a, b);
    if (a->id > b->id) std::swap(a, b);
    return intern(K_MUL, w, a, b);
}
static bool nonneg(E e) { return !(e->hi >> (e->w - 1)); }
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
E mkUDiv(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->val == 1) return a;
        if (b->val && isC(a)) return mkConst(w, a->val / b->val);
        if (isPow2(b->val)) return mkLShr(a, mkConst(w, bitlen(b->val) - 1));
        if (b->val && a->hi < b->val) return mkConst(w, 0);
        E q, r;
        if (b->val && linDiv(a, b->val, q, r)) return q;
        if (a->op == K_UDIV && isC(a->b) && bitlen(a->b->val) + bitlen(b->val) <= w) return mkUDiv(a->a, mkConst(w, a->b->val * b->val));
        if (a->op == K_ITE && (isC(a->b) || isC(a->c)) && a->depth < 200) return mkIte(a->a, mkUDiv(a->b, b), mkUDiv(a->c, b));
        // narrow
        unsigned n = std::max(bitlen(a->hi), bitlen(b->val));
        if (n && n < w && n <= 64) { n = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : n <= 40 ? 40 : 64; if (n < w) return mkZext(mkUDiv(mkExtract(a, 0, n), mkConst(n, b->val)), w); }
    }
    return collapse(intern(K_UDIV, w, a, b));
}
E mkURem(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->val == 1) return mkConst(w, 0);
        if (b->val && isC(a)) return mkConst(w, a->val % b->val);
        if (isPow2(b->val)) return mkAnd(a, mkConst(w, b->val - 1));
        if (b->val && a->hi < b->val) return a;
        E q, r;
        if (b->val && linDiv(a, b->val, q, r)) return r;
        if (a->op == K_ITE && (isC(a->b) || isC(a->c)) && a->depth < 200) return mkIte(a->a, mkURem(a->b, b), mkURem(a->c, b));
        unsigned n = std::max(bitlen(a->hi), bitlen(b->val));
        if (n && n < w && n <= 64) { n = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : n <= 40 ? 40 : 64; if (n < w) return mkZext(mkURem(mkExtract(a, 0, n), mkConst(n, b->val)), w); }
    }
    return collapse(intern(K_UREM, w, a, b));
}
E mkSDiv(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && b->val) {
        i128 x = sext128(a->val, w), y = sext128(b->val, w);
        if (y == -1) return mkConst(w, (u128)0 - (u128)x);
        return mkConst(w, (u128)(x / y));
    }
    if (nonneg(a) && nonneg(b)) return mkUDiv(a, b);
    if (isC(b) && b->val == 1) return a;
    return intern(K_SDIV, w, a, b);
}
E mkSRem(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && b->val) {
        i128 x = sext128(a->val, w), y = sext128(b->val, w);
        if (y == -1) return mkConst(w, 0);
        return mkConst(w, (u128)(x % y));
    }
    if (nonneg(a) && nonneg(b)) return mkURem(a, b);
    return intern(K_SREM, w, a, b);
}
static bool isNotOf(E a, E b) { return (a->op == K_NOT && a->a == b) || (b->op == K_NOT && b->a == a); }
E mkAnd(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->val & b->val);
        if (b->val == 0) return b;
        if (b->val == maskw(w)) return a;
        if (isPow2(b->val + 1)) {
            if (a->hi <= b->val) return a;
            return mkZext(mkExtract(a, 0, bitlen(b->val)), w);
        }
        if (a->op == K_AND && isC(a->b)) return mkAnd(a->a, mkConst(w, a->b->val & b->val));
        // contiguous mask: concat(extract, zeros)
        unsigned tz = ctz128(b->val, w);
        if (tz && isPow2((b->val >> tz) + 1)) {
            unsigned n = bitlen(b->val) - tz;
            return mkZext(mkConcat(mkExtract(a, tz, n), mkConst(tz, 0)), w);
        }
        if (bitlen(a->hi) <= a->tz) return mkConst(w, 0);
        if (a->op == K_ZEXT) {
            if (a->a->w < w && bitlen(b->val) > a->a->w) return mkAnd(a, mkConst(w, b->val & maskw(a->a->w)));
            return mkZext(mkAnd(a->a, mkConst(a->a->w, b->val)), w);
        }
        if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val & b->val), mkConst(w, a->c->val & b->val));
    }
    if (w == 1 && isNotOf(a, b)) return mkBool(false);
    if (w == 1) {   // absorb  a & (a & c)
        if (a->op == K_AND && (a->a == b || a->b == b)) return a;
        if (b->op == K_AND && (b->a == a || b->b == a)) return b;
        if (b->op == K_OR && (b->a == a || b->b == a)) return a;
        if (a->op == K_OR && (a->a == b || a->b == b)) return b;
    }
    if (a->tz >= bitlen(b->hi) || b->tz >= bitlen(a->hi)) return mkConst(w, 0);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(K_AND, w, a, b);
}
E mkOr(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->val | b->val);
        if (b->val == 0) return a;
        if (b->val == maskw(w)) return b;
        if (a->op == K_OR && isC(a->b)) return mkOr(a->a, mkConst(w, a->b->val | b->val));
        if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val | b->val), mkConst(w, a->c->val | b->val));
    }
    if (w == 1) {
        if (isNotOf(a, b)) return mkBool(true);
        if (a->op == K_OR && (a->a == b || a->b == b)) return a;
        if (b->op == K_OR && (b->a == a || b->b == a)) return b;
        if (b->op == K_AND && (b->a == a || b->b == a)) return a;
        if (a->op == K_AND && (a->a == b || a->b == b)) return b;
    } else {
        // disjoint bits -> concat
        unsigned lb = bitlen(b->hi), la = bitlen(a->hi);
        if (lb < w && a->tz >= lb && lb) return mkConcat(mkExtract(a, lb, w - lb), mkExtract(b, 0, lb));
        if (la < w && b->tz >= la && la) return mkConcat(mkExtract(b, la, w - la), mkExtract(a, 0, la));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(K_OR, w, a, b);
}
E mkXor(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkConst(w, 0);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->val ^ b->val);
        if (b->val == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == K_XOR && isC(a->b)) return mkXor(a->a, mkConst(w, a->b->val ^ b->val));
        if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val ^ b->val), mkConst(w, a->c->val ^ b->val));
    }
    if (w == 1) {
        if (a->op == K_NOT) return mkNot(mkXor(a->a, b));
        if (b->op == K_NOT) return mkNot(mkXor(a, b->a));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(K_XOR, w, a, b);
}
E mkShl(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(w, 0);
        unsigned k = (unsigned)b->val;
        if (isC(a)) return mkConst(w, a->val << k);
        if (bitlen(a->hi) + k <= w) return mkMul(a, mkConst(w, (u128)1 << k));
        return mkConcat(mkExtract(a, 0, w - k), mkConst(k, 0));
    }
    if (isC(a) && a->val == 0) return a;
    return intern(K_SHL, w, a, b);
}
E mkLShr(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(w, 0);
        unsigned k = (unsigned)b->val;
        if (isC(a)) return mkConst(w, a->val >> k);
        return mkZext(mkExtract(a, k, w - k), w);
    }
    if (isC(a) && a->val == 0) return a;
    return intern(K_LSHR, w, a, b);
}
E mkAShr(E a, E b) {
    unsigned w = a->w;
    if (nonneg(a)) return mkLShr(a, b);
    if (isC(b)) {
        if (b->val == 0) return a;
        unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
        if (isC(a)) return mkConst(w, (u128)(sext128(a->val, w) >> k));
        return mkSext(mkExtract(a, k, w - k), w);
    }
    return intern(K_ASHR, w, a, b);
}
E mkNot(E a) {
    if (isC(a)) return mkBool(!a->val);
    if (a->op == K_NOT) return a->a;
    return intern(K_NOT, 1, a);
}
static E eqConst(E a, E b, int depth) {   // b const
    unsigned w = a->w; u128 v = b->val;
    if (v < a->lo || v > a->hi) return mkBool(false);
    if (a->lo == a->hi) return mkBool(v == a->lo);
    if (a->tz && (v & maskw(a->tz))) return mkBool(false);
    if (w == 1) return v ? a : mkNot(a);
    switch (a->op) {
    case K_ZEXT: return mkEq(a->a, mkConst(a->a->w, v));
    case K_SEXT: {
        u128 t = v & maskw(a->a->w);
        if (((u128)sext128(t, a->a->w) & maskw(w)) != v) return mkBool(false);
        return mkEq(a->a, mkConst(a->a->w, t));
    }
    case K_ADD:
        if (isC(a->b)) return mkEq(a->a, mkConst(w, v - a->b->val));
        if (w <= 64) {                       // c*t + r with r < c: splits into t == v/c and r == v%c
            u128 d = maxCoef(a); E q, r;
            if (d > 1 && linDiv(a, d, q, r) && !isC(q) && q != a && r != a) return mkAnd(mkEq(q, mkConst(w, v / d)), mkEq(r, mkConst(w, v % d)));
        }
        break;
    case K_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(w, v ^ a->b->val)); break;
    case K_MUL:
        if (isC(a->b)) {
            if (bitlen(a->a->hi) + bitlen(a->b->val) <= w || (w <= 64 && a->a->hi * a->b->val <= maskw(w))) {
                if (v % a->b->val) return mkBool(false);
                return mkEq(a->a, mkConst(w, v / a->b->val));
            }
            if (a->b->val == maskw(w)) return mkEq(a->a, mkConst(w, (u128)0 - v));
        }
        break;
    case K_CONCAT:
        return mkAnd(mkEq(a->a, mkConst(a->a->w, v >> a->b->w)), mkEq(a->b, mkConst(a->b->w, v)));
    case K_ITE:
        if (depth < 64 && (isC(a->b) || isC(a->c))) {
            E x = isC(a->b) ? mkBool(a->b->val == v) : eqConst(a->b, b, depth + 1);
            E y = isC(a->c) ? mkBool(a->c->val == v) : eqConst(a->c, b, depth + 1);
            return mkIte(a->a, x, y);
        }
        break;
    default: break;
    }
    return intern(K_EQ, 1, a, b);
}
E mkEq(E a, E b) {
    if (a == b) return mkBool(true);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkBool(a->val == b->val);
    if (isC(b)) return eqConst(a, b, 0);
    if (a->lo > b->hi || b->lo > a->hi) return mkBool(false);
    if (a->w == 1) return mkNot(mkXor(a, b));
    if (a->op == K_ZEXT && b->op == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == K_SEXT && b->op == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == K_ADD && b->op == K_ADD && isC(a->b) && isC(b->b)) return mkEq(a->a, mkAdd(b->a, mkConst(a->w, b->b->val - a->b->val)));
    if (a->op == K_ADD && (a->a == b)) return mkEq(a->b, mkConst(a->w, 0));
    if (a->op == K_ADD && (a->b == b)) return mkEq(a->a, mkConst(a->w, 0));
    if (b->op == K_ADD && (b->a == a)) return mkEq(b->b, mkConst(a->w, 0));
    if (b->op == K_ADD && (b->b == a)) return mkEq(b->a, mkConst(a->w, 0));
    if (a->op == K_CONCAT && b->op == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
    return intern(K_EQ, 1, a, b);
}
E mkUlt(E a, E b) {
    unsigned w = a->w;
    if (a == b) return mkBool(false);
    if (a->hi < b->lo) return mkBool(true);
    if (a->lo >= b->hi) return mkBool(false);
    if (w == 1) return mkAnd(mkNot(a), b);
    if (isC(b) && b->val == 1) return mkEq(a, mkConst(w, 0));
    if (isC(a) && a->val == 0) return mkNot(mkEq(b, mkConst(w, 0)));
    // after range tests: a < c with c-1 == a->lo  -> a == lo
    if (isC(b) && b->val - 1 == a->lo) return mkEq(a, mkConst(w, a->lo));
    if (isC(a) && a->val + 1 == b->hi) return mkEq(b, mkConst(w, b->hi));
    if (a->op == K_ZEXT && b->op == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
    if (a->op == K_ZEXT && isC(b)) return mkUlt(a->a, mkConst(a->a->w, b->val));   // range ensured fits
    if (b->op == K_ZEXT && isC(a)) return mkUlt(mkConst(b->a->w, a->val), b->a);
    if (isC(b) && a->op == K_ADD && isC(a->b) && a->a->hi + a->b->val <= maskw(w) && w < 128 && b->val >= a->b->val)
        return mkUlt(a->a, mkConst(w, b->val - a->b->val));
    if (isC(a) && b->op == K_ADD && isC(b->b) && b->a->hi + b->b->val <= maskw(w) && w < 128 && a->val >= b->b->val)
        return mkUlt(mkConst(w, a->val - b->b->val), b->a);
    if (isC(b) && a->op == K_MUL && isC(a->b) && w <= 64 && a->a->hi * a->b->val <= maskw(w))
        return mkUlt(a->a, mkConst(w, (b->val + a->b->val - 1) / a->b->val));
    if (isC(a) && b->op == K_MUL && isC(b->b) && w <= 64 && b->a->hi * b->b->val <= maskw(w))
        return mkUlt(mkConst(w, a->val / b->b->val), b->a);
    if (isC(b) && isPow2(b->val) && b->val > 1 && a->op == K_OR && isC(a->b) && a->b->val < b->val) return mkUlt(a->a, b);
    if (isC(a) && isPow2(a->val + 1) && b->op == K_OR && isC(b->b) && b->b->val <= a->val) return mkUlt(a, b->a);
    if (isC(b) && a->op == K_ADD && w <= 64) {      // c*t + r < K compares the quotients, then the remainders
        u128 d = maxCoef(a); E q, r;
        if (d > 1 && linDiv(a, d, q, r) && !isC(q) && q != a && r != a) return mkOr(mkUlt(q, mkConst(w, b->val / d)), mkAnd(mkEq(q, mkConst(w, b->val / d)), mkUlt(r, mkConst(w, b->val % d))));
    }
    if (isC(a) && b->op == K_ADD && w <= 64 && a->val < maskw(w)) {      // K < b  <=>  !(b < K+1)
        u128 d = maxCoef(b); E q, r;
        if (d > 1 && linDiv(b, d, q, r) && !isC(q) && q != b && r != b) return mkNot(mkUlt(b, mkConst(w, a->val + 1)));
    }
    {   // comparison with a choice among constants
        auto chain = [](E e) { int n = 0; while (e->op == K_ITE && isC(e->b) && n++ < 24) e = e->c; return n > 0 && isC(e); };
        if (w <= 64 && a->op == K_ADD && chain(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
        if (w <= 64 && b->op == K_ADD && chain(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
        if (w <= 64 && a->op == K_ZEXT && a->a->op == K_ADD && chain(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
        if (w <= 64 && b->op == K_ZEXT && b->a->op == K_ADD && chain(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    }
    if (smallIteConst(a) && isC(b)) return mkIte(a->a, mkBool(a->b->val < b->val), mkBool(a->c->val < b->val));
    if (smallIteConst(b) && isC(a)) return mkIte(b->a, mkBool(a->val < b->b->val), mkBool(a->val < b->c->val));
    return intern(K_ULT, 1, a, b);
}
E mkSlt(E a, E b) {
    unsigned w = a->w;
    if (a == b) return mkBool(false);
    if (isC(a) && isC(b)) return mkBool(sext128(a->val, w) < sext128(b->val, w));
    if (w == 1) return mkAnd(a, mkNot(b));
    bool na = a->lo >> (w - 1), nb = b->lo >> (w - 1), pa = nonneg(a), pb = nonneg(b);
    if ((pa && pb) || (na && nb)) return mkUlt(a, b);
    if (na && pb) return mkBool(true);
    if (pa && nb) return mkBool(false);
    if (a->op == K_SEXT && b->op == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
    // a negated non-negative sum: -n < c  <=>  n > -c
    u128 half = (u128)1 << (w - 1);
    if (isC(b) && (a->op == K_ADD || a->op == K_MUL) && b->val != half) { E n = mkMul(a, mkConst(w, maskw(w))); if (n->hi < half) return mkSlt(mkConst(w, (u128)0 - b->val), n); }
    if (isC(a) && (b->op == K_ADD || b->op == K_MUL) && a->val != half) { E n = mkMul(b, mkConst(w, maskw(w))); if (n->hi < half) return mkSlt(n, mkConst(w, (u128)0 - a->val)); }
    auto fitsS = [](E c, unsigned n) { return ((u128)sext128(c->val, n) & maskw(c->w)) == c->val; };
    if (a->op == K_SEXT && isC(b) && fitsS(b, a->a->w)) return mkSlt(a->a, mkConst(a->a->w, b->val));
    if (b->op == K_SEXT && isC(a) && fitsS(a, b->a->w)) return mkSlt(mkConst(b->a->w, a->val), b->a);
    return intern(K_SLT, 1, a, b);
}
E mkIte(E c, E a, E b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    if (c->op == K_NOT) return mkIte(c->a, b, a);
    if (a->op == K_ITE && a->a == c) return mkIte(c, a->b, b);
    if (b->op == K_ITE && b->a == c) return mkIte(c, a, b->c);
    if (a->w == 1) {
        if (isTrue(a)) return mkOr(c, b);
        if (isFalse(a)) return mkAnd(mkNot(c), b);
        if (isTrue(b)) return mkOr(mkNot(c), a);
        if (isFalse(b)) return mkAnd(c, a);
    }
    // ite(c1,x,ite(c2,x,y)) -> ite(c1|c2,x,y)
    if (b->op == K_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    return intern(K_ITE, a->w, c, a, b);
}
static bool g_noDist = false;     // keep a partial low extract whole while bytes are recombined
E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(w, a->val >> off);
    if (bitlen(a->hi) <= off) return mkConst(w, 0);
    if (a->tz >= off + w) return mkConst(w, 0);
    switch (a->op) {
    case K_EXTRACT: return mkExtract(a->a, off + a->ext, w);
    case K_CONCAT:
        if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
        if (off + w <= a->b->w) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case K_ZEXT:
        if (off >= a->a->w) return mkConst(w, 0);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        return mkZext(mkExtract(a->a, off, a->a->w - off), w);
    case K_SEXT:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0) return mkSext(a->a, w);
        if (off < a->a->w) return mkSext(mkExtract(a->a, off, a->a->w - off), w);
        break;
    case K_ITE:
        if (isC(a->b) || isC(a->c) || (a->b->op == K_ZEXT) || (a->c->op == K_ZEXT)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    case K_AND: return mkAnd(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_OR: return mkOr(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_XOR: return mkXor(mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD:
        if (off > 0 && isC(a->b) && a->a->hi < ((u128)1 << off)) {          // x + k with x below the cut: only a carry reaches it
            u128 kl = a->b->val & maskw(off), kh = a->b->val >> off;
            return mkIte(mkUlt(a->a, mkConst(a->w, ((u128)1 << off) - kl)), mkConst(w, kh), mkConst(w, kh + 1));
        }
        for (int k = 0; k < 2 && off > 0; k++) {
            E x = k ? a->b : a->a, i = k ? a->a : a->b;
            if (i->op == K_ITE && (isC(i->b) || isC(i->c)) && !isC(x) && i->depth < 200 && x->hi < ((u128)1 << off)) return mkIte(i->a, mkExtract(mkAdd(x, i->b), off, w), mkExtract(mkAdd(x, i->c), off, w));
        }
        if (off == 0 && ((w != 8 && !g_noDist) || a->hi <= maskw(w))) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case K_MUL:
        if (isC(a->b) && isPow2(a->b->val) && off >= bitlen(a->b->val) - 1) return mkExtract(a->a, off - (bitlen(a->b->val) - 1), w);
        if (off == 0 && ((w != 8 && !g_noDist) || a->hi <= maskw(w))) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
    }
    return collapse(intern(K_EXTRACT, w, a, nullptr, nullptr, 0, off));
}
E mkConcat(E h, E l) {
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l)) return mkConst(w, (h->val << l->w) | l->val);
    if (isC(h) && h->val && l->op == K_EXTRACT && l->a->w >= l->ext + w) {       // the high bits are constant by range
        unsigned sh = l->ext + l->w;
        if ((l->a->lo >> sh) == (l->a->hi >> sh) && ((l->a->lo >> sh) & maskw(h->w)) == h->val) return mkExtract(l->a, l->ext, w);
    }
    if (isC(h) && h->val == 0) return mkZext(l, w);
    if (h->op == K_ZEXT) return mkZext(mkConcat(h->a, l), w);
    if (h->op == K_EXTRACT && l->op == K_EXTRACT && h->a == l->a && h->ext == l->ext + l->w) { bool o = g_noDist; g_noDist = l->ext + w < h->a->w; E r = mkExtract(h->a, l->ext, w); g_noDist = o; return r; }
    // h extract of x starting at |l|, l == low part x itself when narrower via zext: x = l (w>=)
    if (h->op == K_EXTRACT && l->op == K_CONCAT && l->a->op == K_EXTRACT && h->a == l->a->a && h->ext == l->a->ext + l->a->w)
        return mkConcat(mkExtract(h->a, l->a->ext, h->w + l->a->w), l->b);
    if (h->op == K_CONCAT) return mkConcat(h->a, mkConcat(h->b, l));
    if (isC(h) && l->op == K_CONCAT && isC(l->a)) return mkConcat(mkConcat(h, l->a), l->b);
    if (h->op == K_ITE && l->op == K_ITE && h->a == l->a && smallIteConst(h) && smallIteConst(l)) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    return intern(K_CONCAT, w, h, l);
}
E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(w, a->val);
    if (a->op == K_ZEXT) return mkZext(a->a, w);
    if (smallIteConst(a)) return mkIte(a->a, mkConst(w, a->b->val), mkConst(w, a->c->val));
    // zext(extract(x,0,k)) where x already fits
    if (a->op == K_EXTRACT && a->ext == 0 && a->a->hi <= maskw(a->w)) {
        if (a->a->w >= w) return mkExtract(a->a, 0, w);
        return mkZext(a->a, w);
    }
    return intern(K_ZEXT, w, a);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(w, (u128)sext128(a->val, a->w));
    if (nonneg(a)) return mkZext(a, w);
    if (a->op == K_SEXT) return mkSext(a->a, w);
    if (smallIteConst(a)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    return intern(K_SEXT, w, a);
}

// ---------- evaluation
static u32 g_epoch = 0;
static const ModelVec *g_lastModel = nullptr;
static std::weak_ptr<const ModelVec> g_lastWeak;
static u128 ev(E e, const ModelVec &m) {
    if (e->op == K_CONST) return e->val;
    if (e->epoch == g_epoch) return e->ev;
    u128 r = 0, M = maskw(e->w);
    switch (e->op) {
    case K_VAR: r = e->ext < m.size() ? m[e->ext] : g_vars[e->ext].lo; break;
    case K_ADD: r = ev(e->a, m) + ev(e->b, m); break;
    case K_MUL: r = ev(e->a, m) * ev(e->b, m); break;
    case K_UDIV: { u128 x = ev(e->a, m), y = ev(e->b, m); r = y ? x / y : M; break; }
    case K_UREM: { u128 x = ev(e->a, m), y = ev(e->b, m); r = y ? x % y : x; break; }
    case K_SDIV: { i128 x = sext128(ev(e->a, m), e->w), y = sext128(ev(e->b, m), e->w);
        r = y == 0 ? (x < 0 ? 1 : M) : y == -1 ? (u128)0 - (u128)x : (u128)(x / y); break; }
    case K_SREM: { i128 x = sext128(ev(e->a, m), e->w), y = sext128(ev(e->b, m), e->w);
        r = y == 0 ? (u128)x : y == -1 ? 0 : (u128)(x % y); break; }
    case K_AND: r = ev(e->a, m) & ev(e->b, m); break;
    case K_OR: r = ev(e->a, m) | ev(e->b, m); break;
    case K_XOR: r = ev(e->a, m) ^ ev(e->b, m); break;
    case K_SHL: { u128 s = ev(e->b, m); r = s >= e->w ? 0 : ev(e->a, m) << (unsigned)s; break; }
    case K_LSHR: { u128 s = ev(e->b, m); r = s >= e->w ? 0 : ev(e->a, m) >> (unsigned)s; break; }
    case K_ASHR: { u128 s = ev(e->b, m); i128 x = sext128(ev(e->a, m), e->w); r = (u128)(x >> (unsigned)(s >= e->w ? e->w - 1 : s)); break; }
    case K_EQ: r = ev(e->a, m) == ev(e->b, m); break;
    case K_ULT: r = ev(e->a, m) < ev(e->b, m); break;
    case K_SLT: r = sext128(ev(e->a, m), e->a->w) < sext128(ev(e->b, m), e->a->w); break;
    case K_NOT: r = !ev(e->a, m); break;
    case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case K_EXTRACT: r = ev(e->a, m) >> e->ext; break;
    case K_ZEXT: r = ev(e->a, m); break;
    case K_SEXT: r = (u128)sext128(ev(e->a, m), e->a->w); break;
    default: break;
    }
    r &= M;
    e->epoch = g_epoch; e->ev = r;
    return r;
}
u128 evalVec(E e, const ModelVec &m, bool fresh) { if (fresh) { g_epoch++; g_lastModel = nullptr; } return ev(e, m); }
u128 evalExpr(E e, const Model &m) {
    if (g_lastModel != m.get() || g_lastWeak.lock() != m) { g_epoch++; g_lastModel = m.get(); g_lastWeak = m; }
    return ev(e, *m);
}

static std::set<std::vector<u32>> &supTable() { static auto *s = new std::set<std::vector<u32>>(); return *s; }
const std::vector<u32> &support(E e) {
    if (e->sup) return *e->sup;
    std::vector<u32> r;
    if (e->op == K_VAR) r.push_back(e->ext);
    else {
        for (E x : {e->a, e->b, e->c})
            if (x) {
                const auto &s = support(x);
                if (r.empty()) r = s;
                else if (!s.empty() && r != s) { std::vector<u32> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); }
            }
    }
    e->sup = &*supTable().insert(r).first;
    return *e->sup;
}
static std::string u128s(u128 v) {
    char b[64];
    if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
std::string exprStr(E e, int d) {
    static const char *nm[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "not", "ite", "concat", "extract", "zext", "sext"};
    if (e->op == K_CONST) return u128s(e->val) + ":" + std::to_string(e->w);
    if (e->op == K_VAR) return g_vars[e->ext].name;
    if (d <= 0) return "...";
    std::string s = std::string("(") + nm[e->op];
    if (e->op == K_EXTRACT) s += "[" + std::to_string(e->ext) + "+" + std::to_string(e->w) + "]";
    if (e->op == K_ZEXT || e->op == K_SEXT) s += std::to_string(e->w);
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}

// ---------- substitution of known variables
static std::unordered_map<E, E> *g_memo;
static E sub(E e, const std::vector<std::pair<u32, u64>> &k, const std::vector<u32> &ks) {
    if (e->op == K_CONST) return e;
    const auto &s = support(e);
    bool hit = false;
    for (u32 v : s) if (std::binary_search(ks.begin(), ks.end(), v)) { hit = true; break; }
    if (!hit) return e;
    auto it = g_memo->find(e);
    if (it != g_memo->end()) return it->second;
    E r = e;
    auto S = [&](E x) { return sub(x, k, ks); };
    switch (e->op) {
    case K_VAR: { auto p = std::lower_bound(k.begin(), k.end(), std::make_pair(e->ext, (u64)0)); r = mkConst(e->w, p->second); break; }
    case K_ADD: r = mkAdd(S(e->a), S(e->b)); break;
    case K_MUL: r = mkMul(S(e->a), S(e->b)); break;
    case K_UDIV: r = mkUDiv(S(e->a), S(e->b)); break;
    case K_SDIV: r = mkSDiv(S(e->a), S(e->b)); break;
    case K_UREM: r = mkURem(S(e->a), S(e->b)); break;
    case K_SREM: r = mkSRem(S(e->a), S(e->b)); break;
    case K_AND: r = mkAnd(S(e->a), S(e->b)); break;
    case K_OR: r = mkOr(S(e->a), S(e->b)); break;
    case K_XOR: r = mkXor(S(e->a), S(e->b)); break;
    case K_SHL: r = mkShl(S(e->a), S(e->b)); break;
    case K_LSHR: r = mkLShr(S(e->a), S(e->b)); break;
    case K_ASHR: r = mkAShr(S(e->a), S(e->b)); break;
    case K_EQ: r = mkEq(S(e->a), S(e->b)); break;
    case K_ULT: r = mkUlt(S(e->a), S(e->b)); break;
    case K_SLT: r = mkSlt(S(e->a), S(e->b)); break;
    case K_NOT: r = mkNot(S(e->a)); break;
    case K_ITE: { E c = S(e->a); if (isTrue(c)) r = S(e->b); else if (isFalse(c)) r = S(e->c); else r = mkIte(c, S(e->b), S(e->c)); break; }
    case K_CONCAT: r = mkConcat(S(e->a), S(e->b)); break;
    case K_EXTRACT: r = mkExtract(S(e->a), e->ext, e->w); break;
    case K_ZEXT: r = mkZext(S(e->a), e->w); break;
    case K_SEXT: r = mkSext(S(e->a), e->w); break;
    default: break;
    }
    (*g_memo)[e] = r;
    return r;
}
E substVars(E e, const std::vector<std::pair<u32, u64>> &known) {
    if (known.empty() || e->op == K_CONST) return e;
    std::vector<u32> ks; for (auto &p : known) ks.push_back(p.first);
    std::unordered_map<E, E> memo; g_memo = &memo;
    E r = sub(e, known, ks);
    g_memo = nullptr;
    return r;
}
