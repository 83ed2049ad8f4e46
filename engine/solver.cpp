#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
SolverStats g_sstats;
unsigned g_timeoutMs = 20000;
static Z3_context C;
static std::vector<const Expr *> translated;
static std::vector<Z3_ast> varAsts;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(C, errh);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }   // small leak, keeps temporaries alive
static Z3_ast num(unsigned w, u128 v) {
    Z3_sort s = Z3_mk_bv_sort(C, w);
    if (w <= 64) return keep(Z3_mk_unsigned_int64(C, (u64)v, s));
    Z3_ast h = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64));
    Z3_inc_ref(C, h);
    Z3_ast l = Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64));
    Z3_inc_ref(C, l);
    Z3_ast r = Z3_mk_concat(C, h, l);
    Z3_inc_ref(C, r); Z3_dec_ref(C, h); Z3_dec_ref(C, l);
    return r;
}
static Z3_ast tr(E e);
// as bit-vector (width-1 exprs are Bool in z3)
static Z3_ast bv(E e) {
    Z3_ast x = tr(e);
    if (e->w > 1) return x;
    static Z3_ast one = num(1, 1), zero = num(1, 0);
    static std::unordered_map<E, Z3_ast> memo;
    Z3_ast &r = memo[e];
    if (!r) r = keep(Z3_mk_ite(C, x, one, zero));
    return r;
}
static Z3_ast tr(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    bool B = e->w == 1;
    switch (e->op) {
    case K_CONST: r = B ? (e->val ? Z3_mk_true(C) : Z3_mk_false(C)) : num(e->w, e->val); break;
    case K_VAR: {
        char nm[32]; snprintf(nm, sizeof nm, "v%u", e->ext);
        r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), B ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w));
        break;
    }
    case K_ADD: r = Z3_mk_bvadd(C, tr(e->a), tr(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(C, tr(e->a), tr(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, tr(e->a), tr(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, tr(e->a), tr(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(C, tr(e->a), tr(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, tr(e->a), tr(e->b)); break;
    case K_AND: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = B ? Z3_mk_and(C, 2, x) : Z3_mk_bvand(C, x[0], x[1]); break; }
    case K_OR: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = B ? Z3_mk_or(C, 2, x) : Z3_mk_bvor(C, x[0], x[1]); break; }
    case K_XOR: r = B ? Z3_mk_xor(C, tr(e->a), tr(e->b)) : Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
    case K_SHL: case K_LSHR: {
        Z3_ast x[2] = {tr(e->a), tr(e->b)};
        if (B) { x[1] = keep(Z3_mk_not(C, x[1])); r = Z3_mk_and(C, 2, x); }
        else r = e->op == K_SHL ? Z3_mk_bvshl(C, x[0], x[1]) : Z3_mk_bvlshr(C, x[0], x[1]);
        break;
    }
    case K_ASHR: r = B ? tr(e->a) : Z3_mk_bvashr(C, tr(e->a), tr(e->b)); break;
    case K_EQ: r = Z3_mk_eq(C, tr(e->a), tr(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(C, bv(e->a), bv(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(C, bv(e->a), bv(e->b)); break;
    case K_NOT: r = Z3_mk_not(C, tr(e->a)); break;
    case K_ITE: r = Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(C, bv(e->a), bv(e->b)); break;
    case K_EXTRACT:
        r = Z3_mk_extract(C, e->ext + e->w - 1, e->ext, bv(e->a));
        if (B) { keep(r); r = Z3_mk_eq(C, r, num(1, 1)); }
        break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a)); break;
    }
    Z3_inc_ref(C, r);
    e->z3 = r;
    return r;
}
struct Res { Tri r; std::vector<std::pair<u32, u64>> asg; };
struct VecHash { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
static std::unordered_map<std::vector<u32>, Res, VecHash> cache;
static std::vector<Model> recent; static size_t recentPos = 0;

static Z3_params params, brief;
static void assertRange(Z3_solver S, u32 v) {
    VarInfo &vi = g_vars[v];
    u64 M = (u64)maskw(vi.w > 64 ? 64 : vi.w);
    if (vi.w == 1) return;
    Z3_ast x = tr(vi.e);
    if (vi.lo > 0) Z3_solver_assert(C, S, keep(Z3_mk_bvule(C, num(vi.w, vi.lo), x)));
    if (vi.hi < M) Z3_solver_assert(C, S, keep(Z3_mk_bvule(C, x, num(vi.w, vi.hi))));
}

static Tri cvc5Fallback(const std::vector<E> &rel, const std::vector<u32> &vars, Res &res) {
    g_sstats.cvc5++;
    Z3_solver T = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, T);
    for (E e : rel) Z3_solver_assert(C, T, tr(e));
    for (u32 v : vars) {
        VarInfo &vi = g_vars[v]; u64 M = (u64)maskw(vi.w > 64 ? 64 : vi.w); if (vi.w == 1) continue;
        if (vi.lo > 0) Z3_solver_assert(C, T, Z3_mk_bvule(C, num(vi.w, vi.lo), tr(vi.e)));
        if (vi.hi < M) Z3_solver_assert(C, T, Z3_mk_bvule(C, tr(vi.e), num(vi.w, vi.hi)));
    }
    char fn[64]; snprintf(fn, sizeof fn, "/tmp/symq_%d.smt2", (int)getpid());
    FILE *f = fopen(fn, "w");
    if (!f) return UNK;
    fprintf(f, "(set-logic ALL)\n%s(check-sat)\n(get-value (", Z3_solver_to_string(C, T));
    for (u32 v : vars) fprintf(f, " v%u", v);
    fprintf(f, "))\n"); fclose(f);
    Z3_solver_dec_ref(C, T);
    Tri out = UNK;
    for (const char *opt : {"--solve-bv-as-int=sum", "--bv-solver=bitblast"}) {
        char cmd[256]; snprintf(cmd, sizeof cmd, "cvc5 -q --produce-models %s --tlimit=%u %s 2>/dev/null", opt, g_timeoutMs, fn);
        FILE *p = popen(cmd, "r"); if (!p) continue;
        std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
        pclose(p);
        if (s.compare(0, 5, "unsat") == 0) { out = NO; break; }
        if (s.compare(0, 3, "sat") == 0) {
            size_t pos = 0; res.asg.clear();
            for (u32 v : vars) {
                std::string key = "(v" + std::to_string(v) + " ";
                pos = s.find(key); if (pos == std::string::npos) continue;
                pos += key.size(); u64 val = 0;
                if (s[pos] == '#' && s[pos + 1] == 'b') for (size_t i = pos + 2; s[i] == '0' || s[i] == '1'; i++) val = val * 2 + (s[i] - '0');
                else if (s[pos] == '#' && s[pos + 1] == 'x') val = strtoull(s.c_str() + pos + 2, nullptr, 16);
                else if (s.compare(pos, 4, "true") == 0) val = 1;
                else if (s.compare(pos, 4, "(_ b") == 0) val = strtoull(s.c_str() + pos + 5, nullptr, 10);
                res.asg.push_back({v, val});
            }
            out = YES; break;
        }
    }
    unlink(fn);
    return out;
}

// query structure with variables renamed by first occurrence: equal keys are the same query up to variable names
static void canonical(const std::vector<E> &rel, std::vector<u32> &key, std::vector<u32> &canon) {
    static std::unordered_map<E, u32> idx; idx.clear();
    static std::unordered_map<u32, u32> vi; vi.clear();
    std::vector<std::pair<E, int>> st;
    auto put128 = [&](u128 v) { key.push_back((u32)v); key.push_back((u32)(v >> 32)); key.push_back((u32)(v >> 64)); key.push_back((u32)(v >> 96)); };
    for (E root : rel) {
        st.push_back({root, 0});
        while (!st.empty()) {
            E e = st.back().first;
            if (idx.count(e)) { st.pop_back(); continue; }
            const Expr *ch[3] = {e->a, e->b, e->c};
            int &k = st.back().second;
            bool pushed = false;
            while (k < 3) { const Expr *c = ch[k++]; if (c && !idx.count(c)) { st.push_back({c, 0}); pushed = true; break; } }
            if (pushed) continue;
            st.pop_back();
            u32 id = idx.size(); idx[e] = id;
            key.push_back(e->op | e->w << 8);
            if (e->op == K_VAR) {
                auto ins = vi.emplace(e->ext, (u32)canon.size()); if (ins.second) canon.push_back(e->ext);
                key.push_back(ins.first->second);
                if (ins.second) { put128(g_vars[e->ext].lo); put128(g_vars[e->ext].hi); }
            } else if (e->op == K_CONST) put128(e->val);
            else {
                if (e->op == K_EXTRACT) key.push_back(e->ext);
                for (const Expr *c : ch) if (c) key.push_back(idx[c]);
            }
        }
        key.push_back(0xffffffff); key.push_back(idx[root]);
    }
}
// few small variables: their whole domain (after the one-variable constraints) decides; -1 if too large
static int domainDecide(const std::vector<E> &rel, const std::vector<u32> &vars, Res &res) {
    if (vars.empty() || vars.size() > 4) return -1;
    for (u32 v : vars) if (g_vars[v].hi - g_vars[v].lo > 255) return -1;
    auto t0 = std::chrono::steady_clock::now();
    static ModelVec mv; if (mv.size() <= vars.back()) mv.resize(vars.back() + 64, 0);
    std::vector<u64> dom[4]; std::vector<E> wide; u64 prod = 1;
    for (E e : rel) if (support(e).size() > 1) wide.push_back(e);
    for (size_t k = 0; k < vars.size(); k++) {
        for (u64 x = g_vars[vars[k]].lo; x <= g_vars[vars[k]].hi; x++) {
            mv[vars[k]] = x; bool ok = true;
            for (size_t i = rel.size(); i-- > 0 && ok;) { const auto &s = support(rel[i]); if (s.size() == 1 && s[0] == vars[k]) ok = evalVec(rel[i], mv, true); }
            if (ok) dom[k].push_back(x);
        }
        prod = prod * dom[k].size(); if (prod > 1u << 20) prod = 1u << 20;
    }
    int out = -1;
    if (prod <= 2048) {
        res.r = NO; res.asg.clear();
        for (u64 n = 0; n < prod && res.r == NO; n++) {
            u64 t = n; for (size_t k = 0; k < vars.size(); k++) { mv[vars[k]] = dom[k][t % dom[k].size()]; t /= dom[k].size(); }
            bool ok = true;
            for (size_t i = wide.size(); i-- > 0 && ok;) ok = evalVec(wide[i], mv, true);
            if (ok) { res.r = YES; for (u32 v : vars) res.asg.push_back({v, mv[v]}); }
        }
        g_sstats.domain++; out = 1;
    }
    g_sstats.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return out;
}
static void disjuncts(E e, bool neg, std::vector<E> &out) {      // of e (or of its negation)
    if (out.size() > 64) return;
    if (e->op == K_NOT) disjuncts(e->a, !neg, out);
    else if (e->w == 1 && e->op == (neg ? K_AND : K_OR)) { disjuncts(e->a, neg, out); disjuncts(e->b, neg, out); }
    else out.push_back(neg ? mkNot(e) : e);
}
Tri solveMay(const std::vector<E> &cons, E cond, Model &model) {
    g_sstats.queries++;
    if (isFalse(cond)) return NO;
    // slice
    if (support(cond).size() > 4) {                   // a disjunction over many variables: drop the parts that are impossible by themselves
        std::vector<E> parts; disjuncts(cond, false, parts);
        if (parts.size() > 1 && parts.size() <= 64) {
            E rest = mkConst(1, 0);
            for (E p : parts) {
                const auto &own = support(p); bool no = false;
                if (own.size() <= 4) {
                    std::vector<E> sub{p}; Res t;
                    for (E e : cons) { const auto &q = support(e); if (std::includes(own.begin(), own.end(), q.begin(), q.end())) sub.push_back(e); }
                    no = domainDecide(sub, own, t) >= 0 && t.r == NO;
                }
                if (!no) rest = mkOr(rest, p);
            }
            cond = rest;
            if (isFalse(cond)) { g_sstats.unsat++; return NO; }
        }
    }
    std::vector<u32> vars = support(cond);
    std::vector<E> rel;
    std::vector<char> used(cons.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = cons.size(); i-- > 0;) {
            if (used[i]) continue;
            const auto &s = support(cons[i]);
            bool hit = false;
            for (u32 v : s) if (std::binary_search(vars.begin(), vars.end(), v)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; rel.push_back(cons[i]);
            std::vector<u32> t; std::set_union(vars.begin(), vars.end(), s.begin(), s.end(), std::back_inserter(t));
            if (t.size() != vars.size()) { vars.swap(t); ch = true; }
        }
    }
    if (isTrue(cond)) return YES;
    rel.push_back(cond);
    std::sort(rel.begin(), rel.end(), [](E a, E b) { return a->id < b->id; });
    rel.erase(std::unique(rel.begin(), rel.end()), rel.end());
    std::vector<u32> key, canon;
    canonical(rel, key, canon);
    auto it = cache.find(key);
    Res res;
    if (it != cache.end()) { g_sstats.cacheHits++; res = it->second; for (auto &p : res.asg) p.first = canon[p.first]; }
    else {
        bool done = false;
        for (size_t k = 0; k < recent.size() && !done; k++) {
            const Model &m = recent[(recentPos + recent.size() - 1 - k) % recent.size()];
            bool ok = true;
            for (u32 v : vars) { u64 x = v < m->size() ? (*m)[v] : 0; if (x < g_vars[v].lo || x > g_vars[v].hi) { ok = false; break; } }
            if (ok) for (E e : rel) if (!evalExpr(e, m)) { ok = false; break; }
            if (ok) { res.r = YES; for (u32 v : vars) res.asg.push_back({v, v < m->size() ? (*m)[v] : 0}); done = true; g_sstats.cacheHits++; }
        }
        if (!done) {
            int d = domainDecide(rel, vars, res);
            if (d >= 0) { done = true; if (res.r == YES) g_sstats.sat++; else g_sstats.unsat++; }
        }
        if (!done) {                                 // the condition with only the constraints on its own few variables
            const auto &own = support(cond);
            if (own.size() <= 4 && own.size() < vars.size()) {
                std::vector<E> sub; Res t;
                for (E e : rel) { const auto &q = support(e); if (std::includes(own.begin(), own.end(), q.begin(), q.end())) sub.push_back(e); }
                if (domainDecide(sub, own, t) >= 0 && t.r == NO) { res.r = NO; done = true; g_sstats.unsat++; }
            }
        }
        if (!done) {
            auto t0 = std::chrono::steady_clock::now();
            if (!C) init();
            g_sstats.z3++;
            bool small = key.size() < 1500;            // small queries share one incremental solver
            static Z3_solver shared = nullptr; static int sharedUses = 0;
            if (small && shared && ++sharedUses > 3000) { Z3_solver_dec_ref(C, shared); shared = nullptr; }
            if (small && !shared) { shared = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, shared); sharedUses = 0; }
            Z3_solver Q = small ? shared : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, Q);
            if (!params) {
                params = Z3_mk_params(C); Z3_params_inc_ref(C, params); Z3_params_set_uint(C, params, Z3_mk_string_symbol(C, "timeout"), g_timeoutMs);
                brief = Z3_mk_params(C); Z3_params_inc_ref(C, brief); Z3_params_set_uint(C, brief, Z3_mk_string_symbol(C, "timeout"), 150);
            }
            auto ask = [&](bool quick) {
                if (quick) Z3_solver_push(C, Q);
                Z3_solver_set_params(C, Q, quick ? brief : params);
                for (u32 v : vars) assertRange(Q, v);
                for (E e : rel) Z3_solver_assert(C, Q, tr(e));
                return Z3_solver_check(C, Q);
            };
            Z3_lbool r = ask(small);
            if (small && r == Z3_L_UNDEF) {              // not that easy: a solver of its own, with preprocessing
                Z3_solver_pop(C, Q, 1); Z3_solver_dec_ref(C, Q); small = false;
                Q = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, Q);
                r = ask(false);
            }
            if (r == Z3_L_TRUE) {
                res.r = YES;
                Z3_model m = Z3_solver_get_model(C, Q); Z3_model_inc_ref(C, m);
                for (u32 v : vars) {
                    Z3_ast val; u64 x = g_vars[v].lo;
                    if (Z3_model_eval(C, m, tr(g_vars[v].e), true, &val)) {
                        if (g_vars[v].w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE;
                        else Z3_get_numeral_uint64(C, val, (uint64_t *)&x);
                    }
                    res.asg.push_back({v, x});
                }
                Z3_model_dec_ref(C, m);
            } else if (r == Z3_L_FALSE) res.r = NO;
            else res.r = cvc5Fallback(rel, vars, res);
            if (small) Z3_solver_pop(C, Q, 1);
            Z3_solver_dec_ref(C, Q);
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            static bool trace = getenv("SYMQ");
            if (trace) fprintf(stderr, "q %.4f r=%d n=%zu vars=%zu cond=%s\n", dt, (int)res.r, rel.size(), vars.size(), exprStr(cond, 8).substr(0, 300).c_str());
            g_sstats.secs += dt;
            if (res.r == YES) g_sstats.sat++; else if (res.r == NO) g_sstats.unsat++; else g_sstats.unknown++;
        }
        if (res.r != UNK) {
            Res c = res; std::unordered_map<u32, u32> pos; for (u32 i = 0; i < canon.size(); i++) pos[canon[i]] = i;
            for (auto &p : c.asg) p.first = pos[p.first];
            cache[key] = c;
        }
    }
    if (res.r == YES) {
        auto m = std::make_shared<ModelVec>(*model);
        if (m->size() < g_vars.size()) { size_t o = m->size(); m->resize(g_vars.size(), 0); for (size_t i = o; i < m->size(); i++) (*m)[i] = g_vars[i].lo; }
        for (auto &p : res.asg) (*m)[p.first] = p.second;
        model = m;
        if (recent.size() < 6) recent.push_back(model); else { recent[recentPos % 6] = model; recentPos = (recentPos + 1) % 6; }
    }
    return res.r;
}
