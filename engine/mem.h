// Copy-on-write object memory with concrete fast paths.
#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <vector>
#include <array>

struct Val { E e; u64 c; };                      // e == nullptr: concrete c (width <= 64)
static inline Val cv(u64 c) { return {nullptr, c}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val fromE(E e) { if (e->op == K_CONST && e->w <= 64) return {nullptr, (u64)e->val}; return {e, 0}; }

enum { MAXT = 8 };
struct Cell { uint16_t wclk = 0; u8 wtid = 0, pad = 0; std::array<uint16_t, MAXT> r{}; u32 wsite = 0; };
static const u32 PAGE = 4096;
struct Page {
    int rc; u32 n; bool hasTag, hd; u64 h;
    E *sym; Cell *sh;
    u8 *data() { return (u8 *)(this + 1); }
    u8 *tag() { return data() + n; }
};
extern size_t g_memBytes;
static inline Page *newPage(u32 n, bool uninit) {
    Page *p = (Page *)malloc(sizeof(Page) + 2 * (size_t)n);
    p->rc = 1; p->n = n; p->sym = nullptr; p->sh = nullptr; p->hasTag = uninit; p->hd = false; p->h = 0;
    g_memBytes += 2 * n + sizeof(Page);
    memset(p->data(), 0, n);
    memset(p->tag(), uninit ? 2 : 0, n);
    return p;
}
static inline void dropPage(Page *p) {
    if (--p->rc) return;
    g_memBytes -= 2 * p->n + sizeof(Page);
    free(p->sym); delete[] p->sh; free(p);
}
static inline Page *clonePage(Page *p) {
    Page *q = (Page *)malloc(sizeof(Page) + 2 * (size_t)p->n);
    memcpy((void *)q, p, sizeof(Page) + 2 * (size_t)p->n);
    g_memBytes += 2 * p->n + sizeof(Page);
    q->rc = 1; q->hd = false;
    if (p->sym) { q->sym = (E *)malloc(sizeof(E) * p->n); memcpy(q->sym, p->sym, sizeof(E) * p->n); }
    if (p->sh) { q->sh = new Cell[p->n]; std::copy(p->sh, p->sh + p->n, q->sh); }
    return q;
}
enum ObjKind : u8 { OB_GLOBAL, OB_CONST, OB_STACK, OB_HEAP, OB_FUNC, OB_EXT, OB_TLS };
struct Obj {
    int rc; ObjKind kind; bool freed; u8 how;    // how: 0 malloc, 1 new, 2 new[]
    u64 size; const void *site; const void *freeSite;
    u32 np; Page **pg;
};
static inline Obj *newObj(u64 size, ObjKind k, bool uninit) {
    Obj *o = (Obj *)malloc(sizeof(Obj));
    o->rc = 1; o->kind = k; o->freed = false; o->how = 0; o->size = size; o->site = nullptr; o->freeSite = nullptr;
    o->np = (size + PAGE - 1) / PAGE;
    o->pg = o->np ? (Page **)malloc(sizeof(Page *) * o->np) : nullptr;
    for (u32 i = 0; i < o->np; i++) o->pg[i] = newPage(i + 1 < o->np ? PAGE : (u32)(size - (u64)i * PAGE), uninit);
    return o;
}
static inline void dropObj(Obj *o) {
    if (!o || --o->rc) return;
    for (u32 i = 0; i < o->np; i++) dropPage(o->pg[i]);
    free(o->pg); free(o);
}
struct L1 { int rc; bool hd; u64 h; Obj *o[64]; };
struct L2 { int rc; bool hd; u64 h; L1 *c[1024]; };
static inline void dropL1(L1 *l) { if (!l || --l->rc) return; for (auto *o : l->o) dropObj(o); free(l); }
static inline void dropL2(L2 *l) { if (!l || --l->rc) return; for (auto *c : l->c) dropL1(c); free(l); }

struct Mem {
    std::vector<L2 *> top;
    u64 next = 16;
    Mem() {}
    Mem(const Mem &o) : top(o.top), next(o.next) { for (auto *l : top) if (l) l->rc++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { for (auto *l : top) dropL2(l); }
    Obj *get(u64 id) const {
        u64 t = id >> 16;
        if (t >= top.size() || !top[t]) return nullptr;
        L1 *l = top[t]->c[(id >> 6) & 1023];
        return l ? l->o[id & 63] : nullptr;
    }
    Obj **slot(u64 id) {                          // unshared path
        u64 t = id >> 16;
        if (t >= top.size()) top.resize(t + 1, nullptr);
        L2 *&a = top[t];
        if (!a) { a = (L2 *)calloc(1, sizeof(L2)); a->rc = 1; }
        else if (a->rc > 1) {
            L2 *n = (L2 *)malloc(sizeof(L2)); *n = *a; n->rc = 1; a->rc--;
            for (auto *c : n->c) if (c) c->rc++;
            a = n;
        }
        a->hd = false;
        L1 *&b = a->c[(id >> 6) & 1023];
        if (!b) { b = (L1 *)calloc(1, sizeof(L1)); b->rc = 1; }
        else if (b->rc > 1) {
            L1 *n = (L1 *)malloc(sizeof(L1)); *n = *b; n->rc = 1; b->rc--;
            for (auto *o : n->o) if (o) o->rc++;
            b = n;
        }
        b->hd = false;
        return &b->o[id & 63];
    }
    Obj *writable(u64 id) {
        Obj **p = slot(id);
        Obj *o = *p;
        if (o->rc > 1) {
            Obj *n = (Obj *)malloc(sizeof(Obj)); *n = *o; n->rc = 1; o->rc--;
            if (o->np) {
                n->pg = (Page **)malloc(sizeof(Page *) * o->np);
                for (u32 i = 0; i < o->np; i++) { n->pg[i] = o->pg[i]; n->pg[i]->rc++; }
            }
            *p = o = n;
        }
        return o;
    }
    Page *wpage(Obj *o, u32 i) {                  // o must be writable()
        Page *&p = o->pg[i];
        if (p->rc > 1) { p->rc--; p = clonePage(p); }
        p->hd = false;
        return p;
    }
    void set(u64 id, Obj *o) { Obj **p = slot(id); Obj *old = *p; *p = o; dropObj(old); }
};
static inline u64 addrOf(u64 id) { return (id << 24) + 0x1000; }
static inline u64 idOf(u64 addr) { return addr >> 24; }
static inline i64 offOf(u64 addr) { return (i64)(addr & 0xffffff) - 0x1000; }
