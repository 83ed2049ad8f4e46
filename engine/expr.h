// Hash-consed bit-vector expressions (widths 1..128).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 { K_CONST, K_VAR, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
               K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_NOT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT };

struct Expr {
    Op op; u8 tz;           // tz: known number of trailing zero bits (saturated at width)
    uint16_t w;
    u32 id;                 // creation index
    u32 ext;                // EXTRACT offset / VAR index
    u32 depth;
    const Expr *a, *b, *c;
    u128 val;               // CONST
    u128 lo, hi;            // unsigned range
    size_t hash;
    mutable void *z3;       // translated ast
    mutable u32 epoch; mutable u128 ev;      // evaluation memo
    mutable const std::vector<u32> *sup;     // support (sorted var indices)
};
typedef const Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

E mkConst(unsigned w, u128 v);
E mkVar(unsigned w, const std::string &name, u64 lo = 0, u64 hi = ~0ull);   // range is part of the variable
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b); E mkNot(E a);
E mkIte(E c, E a, E b); E mkConcat(E hi, E lo); E mkExtract(E a, unsigned off, unsigned w);
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w);
static inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static inline E mkBool(bool b) { return mkConst(1, b); }
static inline bool isTrue(E e) { return e->op == K_CONST && e->w == 1 && e->val; }
static inline bool isFalse(E e) { return e->op == K_CONST && e->w == 1 && !e->val; }

struct VarInfo { std::string name; unsigned w; E e; u64 lo, hi; };
extern std::vector<VarInfo> g_vars;
extern u64 g_exprs;

typedef std::vector<u64> ModelVec;              // indexed by var index
typedef std::shared_ptr<const ModelVec> Model;
struct Expr; u128 evalVec(const Expr *e, const ModelVec &m, bool fresh);   // fresh: m changed since the last call
u128 evalExpr(E e, const Model &m);
const std::vector<u32> &support(E e);
std::string exprStr(E e, int depth = 6);
E substVars(E e, const std::vector<std::pair<u32, u64>> &known);   // sorted by var index
