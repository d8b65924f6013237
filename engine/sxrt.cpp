// Runtime of the symbolic execution engine: expression graph, shadow memory, path exploration, Z3 queries. // v2: its templates bind within the library
#include "sxops.h"
#include "sx.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <csetjmp>
#include <ucontext.h>
#include <csignal>
#include <malloc.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <exception>
#include <sstream>
#include <iostream>
#include <typeinfo>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

extern "C" {
u32 __sx_args[64]; u32 __sx_ret[16]; void* __sx_marker; u64 __sx_bv[16];
}

// ---------------------------------------------------------------- expressions
struct Node { u8 op, w; u32 a, b, c; u64 k; };
static std::vector<Node> N;
static std::vector<Z3_ast> Zm;      // memo (bit-vector form)
static std::vector<Z3_ast> ZBm;     // memo (bool form)
static std::unordered_map<u64, u32> intern_;
static bool running = false;
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sext(u64 v, unsigned w) { if (w >= 64) return (int64_t) v; u64 m = 1ull << (w - 1); v &= mask(w); return (int64_t)((v ^ m) - m); }

static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u32 mk(u8 op, u8 w, u32 a, u32 b, u32 c, u64 k) {
    u64 h = hmix(hmix(hmix(hmix(hmix(1, op), w), a), b), c);
    if (op == SX_CONST || op == SX_VAR) h = hmix(h, k);
    for (;;) {
        auto it = intern_.find(h);
        if (it == intern_.end()) break;
        const Node& n = N[it->second];
        if (n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && (op != SX_CONST || n.k == (k & mask(w)))) return it->second;
        h = hmix(h, 77);
    }
    N.push_back({ op, w, a, b, c, k & mask(w) });
    u32 id = N.size() - 1; intern_[h] = id; return id;
}
static u32 kst(u64 v, unsigned w) { return mk(SX_CONST, w, 0, 0, 0, v & mask(w)); }
static bool isK(u32 n) { return N[n].op == SX_CONST; }

// Concrete evaluation of one operator (the runtime's own semantics, compared with the machine's result).
static u64 ev(int op, unsigned w, u64 a, u64 b) {
    switch (op) {
        case SX_ADD: return (a + b) & mask(w); case SX_SUB: return (a - b) & mask(w); case SX_MUL: return (a * b) & mask(w);
        case SX_AND: return a & b; case SX_OR: return a | b; case SX_XOR: return a ^ b;
        default: return 0;
    }
}
static u32 mkNot(u32 a) {
    if (N[a].op == SX_NOT) return N[a].a;
    if (isK(a)) return kst(!N[a].k, 1);
    return mk(SX_NOT, 1, a, 0, 0, !N[a].k);
}
static u32 mkExtract(u32 a, unsigned lo, unsigned w) {
    const Node n = N[a];
    if (lo == 0 && w == n.w) return a;
    if (n.op == SX_CONST) return kst(n.k >> lo, w);
    if (n.op == SX_EXTRACT) return mkExtract(n.a, n.b + lo, w);
    if (n.op == SX_ZEXT) {
        unsigned iw = N[n.a].w;
        if (lo >= iw) return kst(0, w);
        if (lo + w <= iw) return mkExtract(n.a, lo, w);
        if (lo == 0) return mk(SX_ZEXT, w, n.a, 0, 0, n.k);
    }
    if (n.op == SX_SEXT) { unsigned iw = N[n.a].w; if (lo + w <= iw) return mkExtract(n.a, lo, w); if (lo == 0 && w > iw) return mk(SX_SEXT, w, n.a, 0, 0, n.k); }
    if (n.op == SX_CONCAT) { // a = high, b = low
        unsigned lw = N[n.b].w;
        if (lo + w <= lw) return mkExtract(n.b, lo, w);
        if (lo >= lw) return mkExtract(n.a, lo - lw, w);
    }
    return mk(SX_EXTRACT, w, a, lo, 0, n.k >> lo);
}
static u32 mkZext(u32 a, unsigned w) {
    if (N[a].w == w) return a;
    if (N[a].w > w) return mkExtract(a, 0, w);
    if (isK(a)) return kst(N[a].k, w);
    if (N[a].op == SX_ZEXT) return mk(SX_ZEXT, w, N[a].a, 0, 0, N[a].k);
    return mk(SX_ZEXT, w, a, 0, 0, N[a].k);
}
static u32 mkSext(u32 a, unsigned w) {
    if (N[a].w == w) return a;
    if (isK(a)) return kst(sext(N[a].k, N[a].w), w);
    if (N[a].op == SX_ZEXT && N[a].w > N[N[a].a].w) return mkZext(N[a].a, w);
    return mk(SX_SEXT, w, a, 0, 0, (u64) sext(N[a].k, N[a].w));
}
static u32 mkConcat(u32 hi, u32 lo) {
    Node h = N[hi], l = N[lo];
    if (h.op == SX_CONST && l.op == SX_CONST) return kst((h.k << l.w) | l.k, h.w + l.w);
    if (h.op == SX_CONST && h.k == 0) return mkZext(lo, h.w + l.w);
    if (h.op == SX_EXTRACT && l.op == SX_EXTRACT && h.a == l.a && h.b == l.b + l.w) return mkExtract(l.a, l.b, h.w + l.w);
    if (h.op == SX_EXTRACT && h.a == lo && h.b == l.w) return mkExtract(lo, 0, h.w + l.w);
    return mk(SX_CONCAT, h.w + l.w, hi, lo, 0, (h.k << l.w) | l.k);
}
static u32 mkIte(u32 c, u32 a, u32 b) {
    if (isK(c)) return N[c].k ? a : b;
    if (a == b) return a;
    if (N[a].w == 1 && isK(a) && isK(b)) return N[a].k ? c : mkNot(c);
    if (N[c].op == SX_NOT) return mkIte(N[c].a, b, a);
    return mk(SX_ITE, N[a].w, c, a, b, N[c].k ? N[a].k : N[b].k);
}
static u32 mkBin(int op, unsigned w, u32 a, u32 b, u64 r);
static u32 mkCmpN(int op, u32 a, u32 b) { // EQ ULT ULE SLT SLE
    u64 x = N[a].k, y = N[b].k; unsigned w = N[a].w; bool r;
    switch (op) { case SX_EQ: r = x == y; break; case SX_ULT: r = x < y; break; case SX_ULE: r = x <= y; break;
        case SX_SLT: r = sext(x, w) < sext(y, w); break; default: r = sext(x, w) <= sext(y, w); }
    if (isK(a) && isK(b)) return kst(r, 1);
    if (a == b) return kst(op == SX_EQ || op == SX_ULE || op == SX_SLE, 1);
    if (op == SX_EQ) {
        if (isK(a)) std::swap(a, b);
        if (isK(b)) {
            Node n = N[a]; u64 k = N[b].k;
            if (w == 1) return k ? a : mkNot(a);
            if (n.op == SX_ZEXT) { unsigned iw = N[n.a].w; if (k > mask(iw)) return kst(0, 1); return mkCmpN(SX_EQ, n.a, kst(k, iw)); }
            if (n.op == SX_SEXT) { unsigned iw = N[n.a].w; if ((u64) sext(k & mask(iw), iw) != (u64) sext(k, w)) return kst(0, 1); return mkCmpN(SX_EQ, n.a, kst(k, iw)); }
            if (n.op == SX_ITE && isK(n.b) && isK(n.c)) {
                bool ta = N[n.b].k == k, tb = N[n.c].k == k;
                if (ta && tb) return kst(1, 1); if (!ta && !tb) return kst(0, 1);
                return ta ? n.a : mkNot(n.a);
            }
            if (n.op == SX_XOR && isK(n.b)) return mkCmpN(SX_EQ, n.a, kst(N[n.b].k ^ k, w));
            if (n.op == SX_ADD && isK(n.b)) return mkCmpN(SX_EQ, n.a, kst(k - N[n.b].k, w));
        } else if (a > b) std::swap(a, b);
    }
    if (op == SX_ULT && isK(b) && N[b].k == 1) return mkCmpN(SX_EQ, a, kst(0, w));
    if (N[a].op == SX_ZEXT && isK(b) && (op == SX_ULT || op == SX_ULE || ((op == SX_SLT || op == SX_SLE) && sext(N[b].k, w) >= 0))) {
        unsigned iw = N[N[a].a].w; if (N[b].k <= mask(iw)) return mkCmpN(op == SX_SLT ? SX_ULT : op == SX_SLE ? SX_ULE : op, N[a].a, kst(N[b].k, iw));
        return kst(1, 1);
    }
    return mk(op, 1, a, b, 0, r);
}
static u32 mkBin(int op, unsigned w, u32 a, u32 b, u64 r) {
    if (isK(a) && isK(b)) return kst(r, w);
    bool comm = op == SX_ADD || op == SX_MUL || op == SX_AND || op == SX_OR || op == SX_XOR;
    if (comm && isK(a)) std::swap(a, b);
    if (isK(b)) {
        u64 k = N[b].k;
        if (k == 0 && (op == SX_ADD || op == SX_SUB || op == SX_OR || op == SX_XOR || op == SX_SHL || op == SX_LSHR || op == SX_ASHR)) return a;
        if (k == 0 && (op == SX_AND || op == SX_MUL)) return b;
        if (k == 1 && (op == SX_MUL || op == SX_UDIV)) return a;
        if (op == SX_AND && k == mask(w)) return a;
        if (w == 1 && op == SX_XOR) return mkNot(a);
        if (w == 1 && op == SX_OR) return b;
        if (op == SX_AND && N[a].op == SX_ZEXT && (k & mask(N[N[a].a].w)) == mask(N[N[a].a].w)) return a;
        if (op == SX_AND && N[a].op == SX_ZEXT && (k & mask(N[N[a].a].w)) == 0) return kst(0, w);
        if (op == SX_AND && k == 0xff && w > 8) return mkZext(mkExtract(a, 0, 8), w);
        if (op == SX_AND && k == 1) return mkZext(mkExtract(a, 0, 1), w);
        if (op == SX_AND && k == 0xffffffffull && w == 64) return mkZext(mkExtract(a, 0, 32), w);
        if (op == SX_SUB) return mkBin(SX_ADD, w, a, kst(-k, w), r);
        if (op == SX_ADD && N[a].op == SX_ADD && isK(N[a].b)) return mkBin(SX_ADD, w, N[a].a, kst(N[N[a].b].k + k, w), r);
        if (op == SX_LSHR && k < w) return mkZext(mkExtract(a, k, w - k), w);
        if (op == SX_SHL && k < w) return mkConcat(mkExtract(a, 0, w - k), kst(0, k));
    } else if (comm && a > b) std::swap(a, b);
    if (a == b) { if (op == SX_AND || op == SX_OR) return a; if (op == SX_XOR || op == SX_SUB) return kst(0, w); }
    if (op == SX_OR && w > 1) { // disjoint zero-extended pieces, as produced by packing
        Node x = N[a], y = N[b];
        auto lowz = [&](const Node& n) -> unsigned { return n.op == SX_CONCAT && isK(n.b) && N[n.b].k == 0 ? N[n.b].w : 0; };
        auto tryp = [&](const Node& hi, u32 lo) -> u32 {
            unsigned z = lowz(hi);
            if (z && N[lo].op == SX_ZEXT && N[N[lo].a].w <= z) return mkConcat(hi.a, mkZext(N[lo].a, z));
            if (z && isK(lo) && N[lo].k <= mask(z)) return mkConcat(hi.a, kst(N[lo].k, z));
            return 0;
        };
        u32 t = tryp(x, b); if (!t) t = tryp(y, a);
        if (t && N[t].k == (r & mask(w))) return t;
        // hi is zext(concat(..)) forms are left to the solver
    }
    return mk(op, w, a, b, 0, r);
}

// ---------------------------------------------------------------- z3
static Z3_context Z; static Z3_solver ZS;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "SX z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(97); }
struct Var { std::string name; unsigned w; u64 lo, hi; int sg; u64 val; u32 node; };
static std::vector<Var> V;
static Z3_ast zbv(u32 n);
static Z3_ast zbool(u32 n);
static std::unordered_map<u64, Z3_ast> varAst;
static Z3_sort bvs(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(Z, w); } return s[w]; }
static Z3_ast zkeep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static std::vector<Z3_ast> tmpRefs;
static Z3_ast zr(Z3_ast a) { Z3_inc_ref(Z, a); tmpRefs.push_back(a); return a; }
static Z3_ast zvar(u32 idx, unsigned w) {
    u64 key = (u64) idx << 8 | w; auto it = varAst.find(key); if (it != varAst.end()) return it->second;
    char nm[32]; snprintf(nm, 32, "v%u_%u", idx, w);
    return varAst[key] = zkeep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs(w)));
}
static Z3_ast b2bv(Z3_ast b) { return zr(Z3_mk_ite(Z, b, zr(Z3_mk_unsigned_int64(Z, 1, bvs(1))), zr(Z3_mk_unsigned_int64(Z, 0, bvs(1))))); }
static Z3_ast zbool(u32 n) {
    if (ZBm.size() < N.size()) ZBm.resize(N.size() + 1024, nullptr);
    if (ZBm[n]) return ZBm[n];
    const Node x = N[n]; Z3_ast r;
    switch (x.op) {
        case SX_CONST: r = zr(x.k ? Z3_mk_true(Z) : Z3_mk_false(Z)); break;
        case SX_NOT: r = zr(Z3_mk_not(Z, zbool(x.a))); break;
        case SX_AND: { Z3_ast t[2] = { zbool(x.a), zbool(x.b) }; r = zr(Z3_mk_and(Z, 2, t)); break; }
        case SX_OR: { Z3_ast t[2] = { zbool(x.a), zbool(x.b) }; r = zr(Z3_mk_or(Z, 2, t)); break; }
        case SX_XOR: r = zr(Z3_mk_xor(Z, zbool(x.a), zbool(x.b))); break;
        case SX_ITE: r = zr(Z3_mk_ite(Z, zbool(x.a), zbool(x.b), zbool(x.c))); break;
        case SX_EQ: r = N[x.a].w == 1 ? zr(Z3_mk_iff(Z, zbool(x.a), zbool(x.b))) : zr(Z3_mk_eq(Z, zbv(x.a), zbv(x.b))); break;
        case SX_ULT: r = zr(Z3_mk_bvult(Z, zbv(x.a), zbv(x.b))); break;
        case SX_ULE: r = zr(Z3_mk_bvule(Z, zbv(x.a), zbv(x.b))); break;
        case SX_SLT: r = zr(Z3_mk_bvslt(Z, zbv(x.a), zbv(x.b))); break;
        case SX_SLE: r = zr(Z3_mk_bvsle(Z, zbv(x.a), zbv(x.b))); break;
        case SX_UADDO: r = zr(Z3_mk_not(Z, zr(Z3_mk_bvadd_no_overflow(Z, zbv(x.a), zbv(x.b), false)))); break;
        case SX_SADDO: { Z3_ast t[2] = { zr(Z3_mk_bvadd_no_overflow(Z, zbv(x.a), zbv(x.b), true)), zr(Z3_mk_bvadd_no_underflow(Z, zbv(x.a), zbv(x.b))) }; r = zr(Z3_mk_not(Z, zr(Z3_mk_and(Z, 2, t)))); break; }
        case SX_USUBO: r = zr(Z3_mk_bvult(Z, zbv(x.a), zbv(x.b))); break;
        case SX_SSUBO: { Z3_ast t[2] = { zr(Z3_mk_bvsub_no_overflow(Z, zbv(x.a), zbv(x.b))), zr(Z3_mk_bvsub_no_underflow(Z, zbv(x.a), zbv(x.b), true)) }; r = zr(Z3_mk_not(Z, zr(Z3_mk_and(Z, 2, t)))); break; }
        case SX_UMULO: r = zr(Z3_mk_not(Z, zr(Z3_mk_bvmul_no_overflow(Z, zbv(x.a), zbv(x.b), false)))); break;
        case SX_SMULO: { Z3_ast t[2] = { zr(Z3_mk_bvmul_no_overflow(Z, zbv(x.a), zbv(x.b), true)), zr(Z3_mk_bvmul_no_underflow(Z, zbv(x.a), zbv(x.b))) }; r = zr(Z3_mk_not(Z, zr(Z3_mk_and(Z, 2, t)))); break; }
        default: r = zr(Z3_mk_eq(Z, zbv(n), zr(Z3_mk_unsigned_int64(Z, 1, bvs(1))))); break;
    }
    if (ZBm.size() <= n) ZBm.resize(N.size() + 1024, nullptr);
    return ZBm[n] = r;
}
static Z3_ast zbv(u32 n) {
    if (Zm.size() < N.size()) Zm.resize(N.size() + 1024, nullptr);
    if (Zm[n]) return Zm[n];
    const Node x = N[n]; Z3_ast r = nullptr; unsigned w = x.w;
    auto A = [&] { return zbv(x.a); }; auto B = [&] { return zbv(x.b); };
    switch (x.op) {
        case SX_CONST: r = zr(Z3_mk_unsigned_int64(Z, x.k, bvs(w))); break;
        case SX_VAR: r = zvar(x.a, w); break;
        case SX_ADD: r = zr(Z3_mk_bvadd(Z, A(), B())); break; case SX_SUB: r = zr(Z3_mk_bvsub(Z, A(), B())); break;
        case SX_MUL: r = zr(Z3_mk_bvmul(Z, A(), B())); break; case SX_UDIV: r = zr(Z3_mk_bvudiv(Z, A(), B())); break;
        case SX_SDIV: r = zr(Z3_mk_bvsdiv(Z, A(), B())); break; case SX_UREM: r = zr(Z3_mk_bvurem(Z, A(), B())); break;
        case SX_SREM: r = zr(Z3_mk_bvsrem(Z, A(), B())); break; case SX_SHL: r = zr(Z3_mk_bvshl(Z, A(), B())); break;
        case SX_LSHR: r = zr(Z3_mk_bvlshr(Z, A(), B())); break; case SX_ASHR: r = zr(Z3_mk_bvashr(Z, A(), B())); break;
        case SX_AND: r = w == 1 ? b2bv(zbool(n)) : zr(Z3_mk_bvand(Z, A(), B())); break;
        case SX_OR: r = w == 1 ? b2bv(zbool(n)) : zr(Z3_mk_bvor(Z, A(), B())); break;
        case SX_XOR: r = w == 1 ? b2bv(zbool(n)) : zr(Z3_mk_bvxor(Z, A(), B())); break;
        case SX_ZEXT: r = N[x.a].w == 1 ? zr(Z3_mk_ite(Z, zbool(x.a), zr(Z3_mk_unsigned_int64(Z, 1, bvs(w))), zr(Z3_mk_unsigned_int64(Z, 0, bvs(w))))) : zr(Z3_mk_zero_ext(Z, w - N[x.a].w, A())); break;
        case SX_SEXT: r = zr(Z3_mk_sign_ext(Z, w - N[x.a].w, A())); break;
        case SX_EXTRACT: r = zr(Z3_mk_extract(Z, x.b + w - 1, x.b, A())); break;
        case SX_CONCAT: r = zr(Z3_mk_concat(Z, A(), B())); break;
        case SX_ITE: r = w == 1 ? b2bv(zbool(n)) : zr(Z3_mk_ite(Z, zbool(x.a), zbv(x.b), zbv(x.c))); break;
        case SX_ABS: r = zr(Z3_mk_ite(Z, zr(Z3_mk_bvslt(Z, A(), zr(Z3_mk_unsigned_int64(Z, 0, bvs(w))))), zr(Z3_mk_bvneg(Z, A())), A())); break;
        case SX_BSWAP: { Z3_ast t = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Z3_ast e = zr(Z3_mk_extract(Z, i * 8 + 7, i * 8, A())); t = t ? zr(Z3_mk_concat(Z, t, e)) : e; } r = t; break; }
        case SX_CTPOP: { Z3_ast t = zr(Z3_mk_unsigned_int64(Z, 0, bvs(w))); for (unsigned i = 0; i < w; ++i) { Z3_ast e = zr(Z3_mk_extract(Z, i, i, A())); t = zr(Z3_mk_bvadd(Z, t, w > 1 ? zr(Z3_mk_zero_ext(Z, w - 1, e)) : e)); } r = t; break; }
        case SX_CTTZ: case SX_CTLZ: {
            Z3_ast t = zr(Z3_mk_unsigned_int64(Z, w, bvs(w)));
            for (unsigned j = 0; j < w; ++j) { unsigned i = x.op == SX_CTTZ ? w - 1 - j : j; // last assignment wins: lowest (cttz) / highest (ctlz) set bit
                Z3_ast bit = zr(Z3_mk_eq(Z, zr(Z3_mk_extract(Z, i, i, A())), zr(Z3_mk_unsigned_int64(Z, 1, bvs(1)))));
                t = zr(Z3_mk_ite(Z, bit, zr(Z3_mk_unsigned_int64(Z, x.op == SX_CTTZ ? i : w - 1 - i, bvs(w))), t)); }
            r = t; break; }
        default: r = b2bv(zbool(n)); break;
    }
    if (Zm.size() <= n) Zm.resize(N.size() + 1024, nullptr);
    return Zm[n] = r;
}

// variable sets of nodes
static std::vector<std::vector<u32>> varsMemo; static std::vector<u8> varsDone;
static const std::vector<u32>& varsOf(u32 n) {
    if (varsMemo.size() < N.size()) { varsMemo.resize(N.size() + 1024); varsDone.resize(N.size() + 1024, 0); }
    if (varsDone[n]) return varsMemo[n];
    const Node x = N[n]; std::vector<u32> r;
    auto add = [&](u32 c) { const auto& v = varsOf(c); std::vector<u32> t; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t)); r.swap(t); };
    switch (x.op) {
        case SX_CONST: break; case SX_VAR: r.push_back(x.a); break;
        case SX_NOT: case SX_ZEXT: case SX_SEXT: case SX_EXTRACT: case SX_ABS: case SX_BSWAP: case SX_CTPOP: case SX_CTLZ: case SX_CTTZ: add(x.a); break;
        case SX_ITE: add(x.a); add(x.b); add(x.c); break;
        default: add(x.a); add(x.b);
    }
    varsMemo[n] = r; varsDone[n] = 1; return varsMemo[n];
}

// ---------------------------------------------------------------- shadow memory
static u8* pageFlags; // one byte per 4 KiB page of the 47-bit address space
struct Page { u32 id[4096]; u8 ix[4096]; };
static std::unordered_map<u64, Page*> pages;
static u64 lastPn = ~0ull; static Page* lastP;
static inline bool hasPage(u64 a) { return a < (1ull << 47) && pageFlags[a >> 12]; }
static Page* page(u64 a, bool create) {
    u64 pn = a >> 12; if (pn == lastPn) return lastP;
    if (!pageFlags[pn]) { if (!create) return nullptr; Page* p; auto it = pages.find(pn); if (it == pages.end()) { p = (Page*) calloc(1, sizeof(Page)); pages[pn] = p; } else p = it->second; pageFlags[pn] = 1; lastPn = pn; lastP = p; return p; }
    lastPn = pn; return lastP = pages[pn];
}
static void clearRange(u64 a, u64 n) {
    u64 e = a + n;
    while (a < e) {
        u64 stop = std::min(e, (a | 4095) + 1);
        if (hasPage(a)) { Page* p = page(a, false); memset(&p->id[a & 4095], 0, (stop - a) * 4); }
        a = stop;
    }
}
static void resetShadow() {
    for (auto& [pn, p] : pages) if (pageFlags[pn]) { memset(p->id, 0, sizeof p->id); pageFlags[pn] = 0; }
    if (pages.size() > 4096) { for (auto& [pn, p] : pages) free(p); pages.clear(); }
    lastPn = ~0ull; lastP = nullptr;
}
static u32 byteShadow(u64 a) { // expression of one byte or 0; drops stale entries
    if (!hasPage(a)) return 0; Page* p = page(a, false); u32 id = p->id[a & 4095]; if (!id) return 0;
    unsigned ix = p->ix[a & 4095]; u8 cv = (u8)(N[id].k >> (8 * ix));
    if (cv != *(u8*) a) { p->id[a & 4095] = 0; return 0; }
    unsigned w = N[id].w; unsigned lo = ix * 8;
    if (lo >= w) return kst(0, 8);
    if (lo + 8 > w) return mkZext(mkExtract(id, lo, w - lo), 8);
    return mkExtract(id, lo, 8);
}

// ---------------------------------------------------------------- heap of the program under test
// A bump arena at a fixed address, never reused within a path, with one state byte per 16-byte granule:
// 0 = not allocated (or freed), 1..16 = that many leading bytes are live.
static u8* const AR = (u8*) 0x610000000000ull; static const u64 ARSZ = 2ull << 30; static u64 arTop; static u8* arState; static std::unordered_map<u64, u64>* arLive;
static inline bool inArena(u64 a) { return a - (u64) AR < ARSZ; }
static void memError(const char* what, u64 a, u64 n);
static inline void chkMem(u64 a, u64 n, bool wr) {
    if (!inArena(a)) { return; }
    u64 o = a - (u64) AR, e = o + n;
    if (n <= 16) {
        u64 g = o >> 4, g2 = (e - 1) >> 4;
        if (g == g2) { if (((e - 1) & 15) >= arState[g]) memError(wr ? "write" : "read", a, n); }
        else if (arState[g] != 16 || ((e - 1) & 15) >= arState[g2]) memError(wr ? "write" : "read", a, n);
        return;
    }
    for (u64 x = o; x < e;) { u64 g = x >> 4; u64 last = std::min(e, (g + 1) << 4) - 1; if ((last & 15) >= arState[g]) { memError(wr ? "write" : "read", a, n); return; } x = last + 1; }
}

// ---------------------------------------------------------------- path state
enum DK { D_BRANCH, D_CONC, D_ASSERT, D_ASSUME, D_RANGE };
struct Dec { u8 kind; u8 taken; u32 node; u64 val; const char* fn; const char* msg; u32 nv; };
static std::vector<Dec> D; static size_t prefixLen; static std::unordered_set<u32> decided;
static u64 pathHash, expectHash;
static std::vector<u64> inModel, exclLast;
static std::vector<u8> inModelSet;
static sigjmp_buf jb;
enum { END_OK = 1, END_ASSUME, END_VIOL, END_DIVERGE, END_LIMIT };
static std::string endMsg;
static std::vector<std::string> notes;
static u64 nAssertQ, nAssertConc, nBranches;
static std::map<std::string, u64> reach, fnBranches; static std::unordered_set<const char*> fnSeenP; static std::set<std::string> fnSeen;
static u64 maxDec = 200000; static u64 maxNodes = 6000000;
static void endPath(int why);
static void memError(const char* what, u64 a, u64 n) {
    if (!running) return;
    char b[200]; u64 o = a - (u64) AR; snprintf(b, 200, "memory error: %s of %llu bytes in heap memory that is not allocated (%s)", what, (unsigned long long) n, o < arTop && *(u8*) (a & ~15ull) == 0xDD ? "freed" : "out of bounds"); endMsg = b; endPath(102);
}
static void endPath(int why) { running = false; siglongjmp(jb, why); }
static inline bool live() { return running; }

static void record(u8 kind, u32 node, bool taken, u64 val, const char* fn, const char* msg) {
    size_t pos = D.size();
    D.push_back({ kind, (u8) taken, node, val, fn, msg, (u32) V.size() });
    if (pos < prefixLen) {
        u64 step = hmix(hmix(kind, taken), kind == D_CONC && pos + 1 == prefixLen ? 0 : val);
        pathHash = hmix(pathHash, step);
        if (pos + 1 == prefixLen && pathHash != expectHash) { char b[300]; snprintf(b, 300, "divergence at decision %zu kind %d in %s", pos, kind, fn ? fn : "?"); endMsg = b; endPath(END_DIVERGE); }
    }
    if (D.size() > maxDec) { endMsg = "decision limit"; endPath(END_LIMIT); }
    if (N.size() > maxNodes) { endMsg = "expression limit"; endPath(END_LIMIT); }
}
static void branchOn(u8 kind, u32 c, bool taken, const char* fn, const char* msg) {
    if (isK(c)) return;
    if (N[c].k != (u64) taken) { // machine and expression disagree: engine fault
        char b[300]; snprintf(b, 300, "expression/machine mismatch in %s op %d", fn ? fn : "?", N[c].op); endMsg = b; endPath(END_DIVERGE);
    }
    u32 base = N[c].op == SX_NOT ? N[c].a : c;
    if (!decided.insert(base).second) return;
    if (kind == D_BRANCH && fn) ++nBranches;
    record(kind, c, taken, 0, fn, msg);
}
static void concretise(u32 id, const char* fn) {
    if (!id || isK(id)) return;
    if (N[id].w == 1) { branchOn(D_BRANCH, id, N[id].k, fn, nullptr); return; }
    if (!decided.insert(id).second) return;
    record(D_CONC, id, true, N[id].k, fn, nullptr);
}

extern "C" {
static void* arNew(u64 n) {
    if (n > (1ull << 29)) { if (running) { endMsg = "memory error: allocation of " + std::to_string(n) + " bytes"; endPath(102); } }
    u64 g = (n + 15) >> 4; if (!g) g = 1;
    u64 o = arTop; arTop += (g + 1) << 4; // one granule of red zone
    if (arTop > ARSZ) { endMsg = "heap limit"; endPath(END_LIMIT); }
    u8* p = AR + o;
    memset(p, 0xAA, n < 65536 ? n : 65536);
    memset(arState + (o >> 4), 16, g); if (n & 15 || !n) arState[(o >> 4) + g - 1] = n & 15;
    arState[(o >> 4) + g] = 0; *(u64*)(p + (g << 4)) = n;
    (*arLive)[o] = n; return p;
}
static void* sxAlloc(u64 n) { if (!running) return malloc(n ? n : 1); void* p = arNew(n); return p; }
static void sxFree(void* p) {
    if (!p) return;
    if (!inArena((u64) p)) { free(p); return; }
    u64 o = (u64) p - (u64) AR; auto it = arLive->find(o);
    if (it == arLive->end()) { if (running) { endMsg = "memory error: release of memory that is not allocated"; endPath(102); } return; }
    u64 n = it->second; arLive->erase(it); memset(p, 0xDD, n); u64 g = (n + 15) >> 4; if (!g) g = 1; memset(arState + (o >> 4), 0, g);
    clearRange((u64) p, n);
}
void* __sx_new(u64 n) { return sxAlloc(n); } void* __sx_new2(u64 n) { return sxAlloc(n); } void* __sx_new3(u64 n, void*) { return sxAlloc(n); } void* __sx_malloc(u64 n) { return sxAlloc(n); }
void __sx_delete(void* p) { sxFree(p); } void __sx_delete2(void* p, u64) { sxFree(p); } void __sx_delete3(void* p) { sxFree(p); } void __sx_delete4(void* p, u64) { sxFree(p); } void __sx_delete5(void* p) { sxFree(p); }
u32 __sx_bin(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b, u64 r) {
    if (!(sa | sb) || !live()) return 0;
    if (!sa) sa = kst(a, w); if (!sb) sb = kst(b, w);
    if (N[sa].w != w || N[sb].w != w) { endMsg = "width mismatch in bin"; endPath(END_DIVERGE); }
    return mkBin(op, w, sa, sb, r);
}
u32 __sx_cmp(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b, u64 r) {
    if (!(sa | sb) || !live()) return 0;
    if (!sa) sa = kst(a, w); if (!sb) sb = kst(b, w);
    if (N[sa].w != w || N[sb].w != w) { endMsg = "width mismatch in cmp"; endPath(END_DIVERGE); }
    switch (pred) { // llvm::CmpInst::Predicate
        case 32: return mkCmpN(SX_EQ, sa, sb); case 33: return mkNot(mkCmpN(SX_EQ, sa, sb));
        case 34: return mkCmpN(SX_ULT, sb, sa); case 35: return mkCmpN(SX_ULE, sb, sa);
        case 36: return mkCmpN(SX_ULT, sa, sb); case 37: return mkCmpN(SX_ULE, sa, sb);
        case 38: return mkCmpN(SX_SLT, sb, sa); case 39: return mkCmpN(SX_SLE, sb, sa);
        case 40: return mkCmpN(SX_SLT, sa, sb); default: return mkCmpN(SX_SLE, sa, sb);
    }
}
u32 __sx_cast(u32 op, u32 sa, u32 w, u64) {
    if (!sa || !live()) return 0;
    switch (op) { case SX_TRUNC: return mkExtract(sa, 0, w); case SX_ZEXT: return mkZext(sa, w); default: return mkSext(sa, w); }
}
u32 __sx_select(u32 w, u32 sc, u64 c, u32 sa, u64 a, u32 sb, u64 b) {
    if (!live()) return 0;
    if (!sc) return c ? sa : sb;
    if (!sa) sa = kst(a, w); if (!sb) sb = kst(b, w);
    u32 r = mkIte(sc, sa, sb); return r;
}
u32 __sx_intr(u32 op, u32 w, u32 sa, u64, u64 r) { if (!sa || !live()) return 0; return mk(op, w, sa, 0, 0, r); }
u32 __sx_ovf(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b, u64 r) { if (!(sa | sb) || !live()) return 0; if (!sa) sa = kst(a, w); if (!sb) sb = kst(b, w); return mk(op, 1, sa, sb, 0, r); }
u32 __sx_load(u64 a, u32 w, u64 v) {
    unsigned n = (w + 7) / 8; chkMem(a, n, false);
    if (!hasPage(a) && !hasPage(a + n - 1)) return 0;
    if (!live()) return 0;
    u64 off = a & 4095;
    if (off + n <= 4096) {
        Page* p = page(a, false); u32 id = p->id[off]; bool uni = true, any = id;
        for (unsigned i = 1; i < n; ++i) { if (p->id[off + i]) any = true; if (p->id[off + i] != id || p->ix[off + i] != p->ix[off] + i) uni = false; }
        if (!any) return 0;
        if (id && uni && p->ix[off] == 0) {
            u32 e = N[id].w == w ? id : N[id].w > w ? mkExtract(id, 0, w) : N[id].w == 1 && w == 8 ? mkZext(id, 8) : 0;
            if (e) { if (N[e].k != (v & mask(w))) { for (unsigned i = 0; i < n; ++i) p->id[off + i] = 0; return 0; } return isK(e) ? 0 : e; }
        }
    }
    u32 e = 0; bool any = false;
    for (unsigned i = 0; i < n; ++i) {
        u32 b = byteShadow(a + i); if (b) any = true; else b = kst(*(u8*)(a + i), 8);
        e = i ? mkConcat(b, e) : b;
    }
    if (!any) return 0;
    if (N[e].w > w) e = mkExtract(e, 0, w);
    if (isK(e) || N[e].k != (v & mask(w))) return 0;
    return e;
}
void __sx_store(u64 a, u32 n, u32 s) {
    chkMem(a, n, true);
    if (!s) { if (!hasPage(a) && !hasPage(a + n - 1)) return; clearRange(a, n); return; }
    if (!live() || a >= (1ull << 47)) return;
    if (isK(s)) { clearRange(a, n); return; }
    if (N[s].w < 8 * n) s = mkZext(s, 8 * n);
    for (unsigned i = 0; i < n; ++i) { Page* p = page(a + i, true); p->id[(a + i) & 4095] = s; p->ix[(a + i) & 4095] = i; }
}
static void copyShadow(u64 d, u64 s, u64 n) {
    bool any = false;
    for (u64 x = s & ~4095ull; x < s + n; x += 4096) if (hasPage(x)) { any = true; break; }
    if (!any) { clearRange(d, n); return; }
    std::vector<std::pair<u32, u8>> t(n);
    for (u64 i = 0; i < n; ++i) { u64 a = s + i; if (!hasPage(a)) { t[i] = { 0, 0 }; continue; } Page* p = page(a, false); t[i] = { p->id[a & 4095], p->ix[a & 4095] }; }
    for (u64 i = 0; i < n; ++i) { u64 a = d + i; if (!t[i].first && !hasPage(a)) continue; Page* p = page(a, true); p->id[a & 4095] = t[i].first; p->ix[a & 4095] = t[i].second; }
}
void __sx_memcpy(void* d, void* s, u64 n) { if (!live() || !n) return; chkMem((u64) s, n, false); chkMem((u64) d, n, true); copyShadow((u64) d, (u64) s, n); }
void __sx_memset(void* d, u32 s, u64 n) {
    if (!live() || !n) return; chkMem((u64) d, n, true);
    if (!s || isK(s)) { clearRange((u64) d, n); return; }
    u32 b = mkExtract(s, 0, 8);
    for (u64 i = 0; i < n; ++i) __sx_store((u64) d + i, 1, b);
}
void __sx_branch(u32 s, u32 taken, const char* fn) { if (!s || !live()) return; branchOn(D_BRANCH, s, taken & 1, fn, nullptr); }
void __sx_conc(u32 s, const char* fn) { if (!s || !live()) return; concretise(s, fn); }
void __sx_switch(u32 s, u32 w, u64 v, const u64* cases, u32 n, const char* fn) {
    if (!s || !live() || isK(s)) return;
    for (u32 i = 0; i < n; ++i) {
        u32 c = mkCmpN(SX_EQ, s, kst(cases[i], w));
        bool t = (v & mask(w)) == (cases[i] & mask(w));
        branchOn(D_BRANCH, c, t, fn, nullptr);
        if (t) return;
    }
}
static void pendingConc() {
    for (int i = 0; i < 60 && i < 64; ++i) if (__sx_args[i]) { u32 id = __sx_args[i]; __sx_args[i] = 0; if (id < N.size()) concretise(id, "external call"); }
}
u32 __sx_enter(void* self) {
    if (!__sx_marker) return 0;
    if (!live()) { __sx_marker = nullptr; return 0; }
    if (__sx_marker == self) { __sx_marker = nullptr; return 1; }
    __sx_marker = nullptr; pendingConc(); return 0;
}
void __sx_conc_mem(u64 a, u64 n, const char* fn);
void __sx_post() {
    if (!__sx_marker) return; __sx_marker = nullptr; if (!live()) return;
    pendingConc();
    for (int i = 0; i < 8 && __sx_bv[2 * i]; ++i) __sx_conc_mem(__sx_bv[2 * i], __sx_bv[2 * i + 1], "external call (by value)");
}
void __sx_landing() { __sx_post(); }
void __sx_byval(u32 ok, u32 k, void* dst) { if (!ok || !live()) { if (live()) clearRange((u64) dst, 8); return; } if (__sx_bv[2 * k]) copyShadow((u64) dst, __sx_bv[2 * k], __sx_bv[2 * k + 1]); }
void __sx_alloc(void* p, u64 n) { if (!p || !live()) return; if (!n) return; clearRange((u64) p, n); }
u32 __sx_chk(u32 s, u64 v) { if (!s || !live()) return 0; if (s >= N.size() || N[s].k != (v & mask(N[s].w))) return 0; return s; }
void __sx_conc_mem(u64 a, u64 n, const char* fn) {
    if (!live()) return;
    for (u64 i = 0; i < n; ++i) { if (!hasPage(a + i)) { i = ((a + i) | 4095) - a; continue; } u32 b = byteShadow(a + i); if (b) concretise(b, fn); }
    clearRange(a, n);
}
void __sx_conc_cstr(u64 a, const char* fn) {
    if (!live() || !a) return;
    for (u64 i = 0;; ++i) { u32 b = byteShadow(a + i); if (b && !isK(b)) concretise(b, fn); if (!*(u8*)(a + i)) break; }
}
void __sx_extarg(u64 a, const char* fn) {
    if (!live() || !a || !hasPage(a)) return;
    u64 n = 64; // unknown external function: the first bytes behind every pointer argument become concrete
    for (u64 i = 0; i < n; ++i) { u32 b = byteShadow(a + i); if (b && !isK(b)) concretise(b, fn); }
}
int __sx_memcmp(const void* x, const void* y, u64 n) {
    const u8 *a = (const u8*) x, *b = (const u8*) y; __sx_ret[0] = 0;
    int r = 0; u64 i = 0; for (; i < n; ++i) if (a[i] != b[i]) { r = a[i] < b[i] ? -1 : 1; break; }
    if (!live()) return r;
    bool any = false; for (u64 j = 0; j < n && !any; ++j) any = byteShadow((u64) a + j) || byteShadow((u64) b + j);
    if (!any) return r;
    // -1/0/1 as nested conditionals, byte 0 outermost
    u32 e = kst(0, 32);
    for (u64 j = n; j-- > 0;) {
        u32 p = byteShadow((u64) a + j), q = byteShadow((u64) b + j);
        if (!p) p = kst(a[j], 8); if (!q) q = kst(b[j], 8);
        e = mkIte(mkCmpN(SX_EQ, p, q), e, mkIte(mkCmpN(SX_ULT, p, q), kst((u32) -1, 32), kst(1, 32)));
    }
    __sx_ret[0] = isK(e) ? 0 : e; return r;
}
u64 __sx_strlen(const char* s) {
    u64 i = 0; 
    for (;; ++i) { u32 b = live() ? byteShadow((u64) s + i) : 0; if (b && !isK(b)) branchOn(D_BRANCH, mkCmpN(SX_EQ, b, kst(0, 8)), s[i] == 0, "strlen", nullptr); if (!s[i]) break; }
    __sx_ret[0] = 0; return i;
}
void* __sx_memchr(const void* x, int c, u64 n) {
    const u8* s = (const u8*) x; void* r = nullptr;
    for (u64 i = 0; i < n; ++i) { u32 b = live() ? byteShadow((u64) s + i) : 0; if (b && !isK(b)) branchOn(D_BRANCH, mkCmpN(SX_EQ, b, kst((u8) c, 8)), s[i] == (u8) c, "memchr", nullptr); if (s[i] == (u8) c) { r = (void*)(s + i); break; } }
    __sx_ret[0] = 0; return r;
}
void __sx_fn(const char* n) { if (fnSeenP.insert(n).second) fnSeen.insert(n); }

// ---- harness interface
u64 sx_var(const char* name, unsigned w, u64 lo, u64 hi, int sg) {
    __sx_ret[0] = 0;
    // consume the call marker: arguments of the harness interface must be concrete
    __sx_post();
    if (!running) return lo;
    u32 idx = V.size(); u64 val = lo;
    if (idx < inModel.size()) val = inModel[idx];
    lo &= mask(w); hi &= mask(w); val &= mask(w);
    u32 node = mk(SX_VAR, w, idx, 0, 0, val); 
    V.push_back({ name, w, lo, hi, sg, val, node });
    u32 in; bool full = sg ? (lo == (w == 64 ? 1ull << 63 : 1ull << (w - 1)) && hi == (mask(w) >> 1)) : (lo == 0 && hi == mask(w));
    if (!full) {
        u32 a = sg ? mkCmpN(SX_SLE, kst(lo, w), node) : mkCmpN(SX_ULE, kst(lo, w), node);
        u32 b = sg ? mkCmpN(SX_SLE, node, kst(hi, w)) : mkCmpN(SX_ULE, node, kst(hi, w));
        if (!isK(a)) { D.push_back({ D_RANGE, 1, a, 0, nullptr, nullptr, idx + 1 }); if (prefixLen && D.size() <= prefixLen) { u64 step = hmix(hmix(D_RANGE, 1), 0); pathHash = hmix(pathHash, step); } }
        if (!isK(b)) { D.push_back({ D_RANGE, 1, b, 0, nullptr, nullptr, idx + 1 }); if (prefixLen && D.size() <= prefixLen) { u64 step = hmix(hmix(D_RANGE, 1), 0); pathHash = hmix(pathHash, step); } }
    }
    in = lo == hi ? 0 : (sg ? mkSext(node, 64) : mkZext(node, 64));
    __sx_ret[0] = in; __sx_marker = nullptr;
    return lo == hi ? (sg ? sext(lo, w) : lo) : sg ? (u64) sext(val, w) : val;
}
static u32 apiArg() { u32 s = 0; if (__sx_marker) { s = __sx_args[0]; __sx_marker = nullptr; for (int i = 0; i < 4; ++i) __sx_args[i] = 0; } return s; }
void sx_assume(bool c) {
    u32 s = apiArg(); if (!running) return;
    if (s && N[s].w > 1) s = mkExtract(s, 0, 1);
    if (s && !isK(s)) branchOn(D_ASSUME, s, c, "assume", nullptr);
    if (!c) endPath(END_ASSUME);
}
void sx_assert(bool c, const char* msg) {
    u32 s = apiArg(); if (!running) return;
    if (s && N[s].w > 1) s = mkExtract(s, 0, 1);
    if (s && !isK(s)) { ++nAssertQ; branchOn(D_ASSERT, s, c, "assert", msg); } else ++nAssertConc;
    if (!c) { endMsg = msg; endPath(END_VIOL); }
}
u64 sx_concrete(u64 v) { u32 s = apiArg(); __sx_ret[0] = 0; if (running && s && !isK(s)) concretise(s, "harness choice"); return v; }
void sx_reach(const char* l) { __sx_post(); if (running) ++reach[l]; }
int sx_symbolic_mode() { __sx_post(); __sx_ret[0] = 0; return 1; }
const char* sx_config(const char* key) { __sx_post(); __sx_ret[0] = 0; std::string k = std::string("SXC_") + key; const char* v = getenv(k.c_str()); return v ? v : ""; }
void sx_note(const char* t, size_t n) { __sx_post(); if (running) notes.push_back(std::string(t, n)); }
}

// ---------------------------------------------------------------- solving
struct QRes { int r; std::vector<std::pair<u32, u64>> model; };
static std::unordered_map<u64, QRes> qcache;
static u64 nQ, nSat, nUnsat, nUnk, nCached; static double tSolve;
static unsigned qTimeout = 20000;

struct Item { u32 len; u64 hash; std::vector<u64> model; std::vector<u64> excl; };
static void put(std::string& s, u64 v) { s.append((char*) &v, 8); }
static u64 get(const char*& p) { u64 v; memcpy(&v, p, 8); p += 8; return v; }
static std::string enc(const Item& i) { std::string s; put(s, i.len); put(s, i.hash); put(s, i.model.size()); for (u64 v : i.model) put(s, v); put(s, i.excl.size()); for (u64 v : i.excl) put(s, v); return s; }
static Item dec(const char*& p) { Item i; i.len = get(p); i.hash = get(p); u64 n = get(p); while (n--) i.model.push_back(get(p)); n = get(p); while (n--) i.excl.push_back(get(p)); return i; }

static char *dataLo, *dataSave; static size_t dataLen; static void (*harnessFn)(); static ucontext_t mainCtx, hCtx; static char* const HSTACK = (char*) 0x600000000000ull; static const size_t HSTSZ = 64 << 20; static int hWhy;
static void resetPath() {
    for (Z3_ast a : tmpRefs) Z3_dec_ref(Z, a); tmpRefs.clear();
    N.clear(); N.push_back({ 0, 1, 0, 0, 0, 0 }); Zm.clear(); ZBm.clear(); intern_.clear(); varsMemo.clear(); varsDone.clear();
    V.clear(); D.clear(); decided.clear(); resetShadow(); notes.clear();
    if (arTop) memset(arState, 0, (arTop >> 4) + 2); arTop = 0; arLive->clear(); if (dataSave) memcpy(dataLo, dataSave, dataLen);
    __sx_marker = nullptr; memset(__sx_args, 0, sizeof __sx_args); memset(__sx_ret, 0, sizeof __sx_ret);
    pathHash = 1; endMsg.clear();
}
static int pathTimeout = 30;
static void onSig(int sig) { if (running) { running = false; siglongjmp(jb, 100 + sig); } signal(sig, SIG_DFL); raise(sig); }
static void onTerm() {
    // uncaught exception out of the harness, or std::terminate inside the code under test
    if (running) { running = false; endMsg = "std::terminate"; siglongjmp(jb, 100 + SIGABRT); }
    abort();
}
static char altstack[1 << 16];
static void hEntry() {
    try { harnessFn(); } catch (const std::exception& e) { bool r = running; running = false; endMsg = std::string("uncaught exception: ") + e.what(); hWhy = r ? END_VIOL : END_OK; }
    catch (...) { running = false; endMsg = "uncaught exception"; hWhy = END_VIOL; }
    running = false;
}
static int runPath(const Item& it) {
    resetPath(); prefixLen = it.len; expectHash = it.hash; inModel = it.model; exclLast = it.excl;
    int why = sigsetjmp(jb, 1);
    if (!why) {
        alarm(pathTimeout); running = true;
        hWhy = 0; getcontext(&hCtx); hCtx.uc_stack.ss_sp = HSTACK; hCtx.uc_stack.ss_size = HSTSZ; hCtx.uc_link = &mainCtx; makecontext(&hCtx, hEntry, 0);
        swapcontext(&mainCtx, &hCtx); why = hWhy;
        running = false; if (!why) why = END_OK;
    } else { running = false; if (why == 102) {} else if (why == 100 + SIGALRM) endMsg = "no termination within " + std::to_string(pathTimeout) + " s"; else if (why > 100) endMsg = "crash: signal " + std::to_string(why - 100); }
    alarm(0); running = false;
    return why;
}
// flips every decision after the prefix; returns new items
static bool incomplete; static std::string incompleteWhy;
static void explore(const Item& it, int why, std::vector<Item>& out) {
    if (D.size() < it.len) { incomplete = true; incompleteWhy = "path shorter than its prefix (divergence): " + endMsg; return; }
    // union-find over variables
    std::vector<u32> par(V.size()); for (u32 i = 0; i < par.size(); ++i) par[i] = i;
    std::vector<std::vector<Z3_ast>> grp(V.size());
    std::vector<std::vector<u32>> mem(V.size()); for (u32 i = 0; i < par.size(); ++i) mem[i] = { i };
    auto find = [&](u32 x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; };
    u64 h = 1;
    for (size_t k = 0; k < D.size(); ++k) {
        Dec& d = D[k];
        const auto vars = varsOf(d.node);
        // the path literal
        auto lit = [&](bool neg, u64 val) -> Z3_ast {
            if (d.kind == D_CONC) { Z3_ast e = zr(Z3_mk_eq(Z, zbv(d.node), zr(Z3_mk_unsigned_int64(Z, val, bvs(N[d.node].w))))); return neg ? zr(Z3_mk_not(Z, e)) : e; }
            Z3_ast b = zbool(d.node); bool pos = d.taken; if (neg) pos = !pos; return pos ? b : zr(Z3_mk_not(Z, b));
        };
        bool last = k + 1 == it.len;
        u64 step = hmix(hmix(d.kind, d.taken), d.kind == D_CONC ? d.val : 0);
        bool flip = (k >= it.len && d.kind != D_RANGE) || (last && d.kind == D_CONC);
        if (flip) {
            std::vector<Z3_ast> q; std::vector<u32> vs; std::set<u32> roots;
            for (u32 v : vars) roots.insert(find(v));
            for (u32 r : roots) { q.insert(q.end(), grp[r].begin(), grp[r].end()); vs.insert(vs.end(), mem[r].begin(), mem[r].end()); }
            std::vector<u64> excl; if (last) excl = exclLast;
            if (d.kind == D_CONC) { for (u64 e : excl) q.push_back(lit(true, e)); excl.push_back(d.val); q.push_back(lit(true, d.val)); }
            else q.push_back(lit(true, 0));
            std::vector<u32> ids; for (Z3_ast a : q) ids.push_back(Z3_get_ast_id(Z, a));
            std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
            u64 key = 7, key2 = 13; for (u32 i : ids) { key = hmix(key, i); key2 = key2 * 1000003 + i; } key = hmix(key, key2);
            auto ci = qcache.find(key); QRes R;
            if (ci != qcache.end()) { R = ci->second; ++nCached; }
            else {
                double t0 = now(); ++nQ;
                Z3_solver_push(Z, ZS); for (Z3_ast a : q) Z3_solver_assert(Z, ZS, a);
                Z3_lbool r = Z3_solver_check(Z, ZS);
                if (r == Z3_L_TRUE) {
                    R.r = 1; ++nSat; Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
                    for (u32 v : vs) { Z3_ast o = nullptr; u64 val = V[v].val; if (Z3_model_eval(Z, m, zvar(v, V[v].w), true, &o)) { Z3_inc_ref(Z, o); Z3_get_numeral_uint64(Z, o, &val); Z3_dec_ref(Z, o); } R.model.push_back({ v, val }); }
                    Z3_model_dec_ref(Z, m);
                } else if (r == Z3_L_FALSE) { R.r = 0; ++nUnsat; } else { R.r = 2; ++nUnk; }
                Z3_solver_pop(Z, ZS, 1); tSolve += now() - t0;
                for (Z3_ast a : q) zkeep(a); // cache keys are ids: keep the terms alive
                qcache[key] = R;
            }
            if (R.r == 1) {
                Item n; n.len = k + 1; n.excl = excl; if (d.kind != D_CONC) n.excl.clear();
                for (u32 v = 0; v < d.nv; ++v) n.model.push_back(V[v].val);
                for (auto& [v, val] : R.model) n.model[v] = val;
                // variables created after this decision are dropped so that they take their defaults again
                n.hash = hmix(h, hmix(hmix(d.kind, d.kind == D_CONC ? 1 : !d.taken), 0));
                out.push_back(std::move(n));
            } else if (R.r == 2) { incomplete = true; incompleteWhy = "solver returned unknown"; }
        }
        h = hmix(h, step);
        if (!vars.empty()) {
            u32 r0 = find(vars[0]);
            for (u32 v : vars) { u32 r = find(v); if (r != r0) { if (mem[r].size() > mem[r0].size()) std::swap(r, r0); par[r] = r0; mem[r0].insert(mem[r0].end(), mem[r].begin(), mem[r].end()); grp[r0].insert(grp[r0].end(), grp[r].begin(), grp[r].end()); mem[r].clear(); grp[r].clear(); } }
            grp[r0].push_back(lit(false, d.val));
            if (last && d.kind == D_CONC) for (u64 e : exclLast) grp[r0].push_back(lit(true, e));
        }
    }
    (void) why;
}

static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string inputs() {
    std::string s; for (auto& v : V) { char b[64]; if (v.sg) snprintf(b, 64, " %lld\n", (long long) sext(v.val, v.w)); else snprintf(b, 64, " %llu\n", (unsigned long long) v.val); s += v.name + b; } return s;
}

// ---------------------------------------------------------------- processes
static bool readN(int fd, void* p, size_t n) { char* c = (char*) p; while (n) { ssize_t r = read(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }
static bool writeN(int fd, const void* p, size_t n) { const char* c = (const char*) p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }
static void sendMsg(int fd, const std::string& s) { u64 n = s.size(); writeN(fd, &n, 8); writeN(fd, s.data(), n); }
static bool recvMsg(int fd, std::string& s) { u64 n; if (!readN(fd, &n, 8)) return false; s.resize(n); return readN(fd, s.data(), n); }

struct Stats { u64 paths = 0, ok = 0, pruned = 0, viol = 0, q = 0, sat = 0, unsat = 0, unk = 0, cached = 0, aq = 0, ac = 0, maxdec = 0, dec = 0, nodes = 0; double ts = 0; };
static void putS(std::string& s, const std::string& x) { put(s, x.size()); s += x; }
static std::string getS(const char*& p) { u64 n = get(p); std::string s(p, n); p += n; return s; }

static void workerLoop(int in, int outfd) {
    // exploration state of one worker process
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, zerr);
    { const char* t = getenv("SX_SOLVER"); std::string m = t ? t : "qfbv";
      if (m == "simple") ZS = Z3_mk_simple_solver(Z);
      else if (m == "qfbv") ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
      else if (m == "default") ZS = Z3_mk_solver(Z);
      else { std::vector<const char*> names{ "simplify", "propagate-values", "bit-blast", "sat" }; if (m == "tactic2") names = { "simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "simplify", "sat" }; if (m == "tactic3") names = { "simplify", "smt" };
        Z3_tactic r = nullptr; for (auto n : names) { Z3_tactic x = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, x); r = r ? Z3_tactic_and_then(Z, r, x) : x; Z3_tactic_inc_ref(Z, r); } ZS = Z3_mk_solver_from_tactic(Z, r); } }
    Z3_solver_inc_ref(Z, ZS);
    Z3_params prm = Z3_mk_params(Z); Z3_params_inc_ref(Z, prm); Z3_params_set_uint(Z, prm, Z3_mk_string_symbol(Z, "timeout"), qTimeout); Z3_solver_set_params(Z, ZS, prm);
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM }) { struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
    std::set_terminate(onTerm);
    std::string msg;
    const bool trace = getenv("SX_TRACE");
    while (recvMsg(in, msg)) {
        const char* p = msg.data(); u64 batch = get(p); double tmax; { u64 b = get(p); memcpy(&tmax, &b, 8); }
        std::vector<Item> st; u64 n = get(p); while (n--) st.push_back(dec(p));
        Stats s; nQ = nSat = nUnsat = nUnk = nCached = nAssertQ = nAssertConc = 0; tSolve = 0; incomplete = false; nBranches = 0;
        std::vector<std::string> viol; std::vector<std::string> samples; bool dirty = false;
        double t0 = now(); u64 done = 0;
        while (!st.empty() && done < batch && now() - t0 < tmax && !dirty && viol.empty()) {
            Item it = std::move(st.back()); st.pop_back(); ++done;
            int why = runPath(it); ++s.paths;
            if (trace) { fprintf(stderr, "PATH why=%d len=%u D=%zu N=%zu %s\n", why, it.len, D.size(), N.size(), endMsg.c_str()); if (getenv("SX_TRACE")[0] == '2') for (auto& d : D) fprintf(stderr, "   k%d t%d n%u op%d v%llx %s\n", d.kind, d.taken, d.node, N[d.node].op, (unsigned long long) d.val, d.fn ? d.fn : ""); }
            if (why == END_OK) ++s.ok; else if (why == END_ASSUME) ++s.pruned;
            else if (why == END_DIVERGE || why == END_LIMIT) { incomplete = true; incompleteWhy = endMsg; dirty = true; }
            else { ++s.viol; std::string v; putS(v, endMsg); putS(v, inputs()); std::string nt; for (auto& x : notes) nt += x + "\n"; putS(v, nt); viol.push_back(v); dirty = true; }
            s.dec += D.size(); if (D.size() > s.maxdec) s.maxdec = D.size(); if (N.size() > s.nodes) s.nodes = N.size();
            for (auto& d : D) if (d.kind == D_BRANCH || d.kind == D_CONC) if (d.fn && (&d - &D[0]) >= (long) it.len) ++fnBranches[d.fn];
            if (samples.empty() && why == END_OK) samples.push_back(inputs());
            if (why == END_OK || why == END_ASSUME) explore(it, why, st);
            else if (why != END_DIVERGE) explore(it, why, st); // keep looking on the other sides
            if (incomplete) dirty = true;
        }
        std::string o; put(o, s.paths); put(o, s.ok); put(o, s.pruned); put(o, s.viol); put(o, nQ); put(o, nSat); put(o, nUnsat); put(o, nUnk); put(o, nCached); put(o, nAssertQ); put(o, nAssertConc); put(o, s.maxdec); put(o, s.dec); put(o, s.nodes); { u64 b; memcpy(&b, &tSolve, 8); put(o, b); }
        put(o, incomplete); putS(o, incompleteWhy);
        put(o, viol.size()); for (auto& v : viol) putS(o, v);
        put(o, st.size()); for (auto& i : st) o += enc(i);
        put(o, reach.size()); for (auto& [k, v] : reach) { putS(o, k); put(o, v); } reach.clear();
        put(o, fnSeen.size()); for (auto& k : fnSeen) putS(o, k); fnSeen.clear();
        put(o, fnBranches.size()); for (auto& [k, v] : fnBranches) { putS(o, k); put(o, v); } fnBranches.clear();
        put(o, samples.size()); for (auto& k : samples) putS(o, k);
        put(o, dirty); 
        struct rusage ru; getrusage(RUSAGE_SELF, &ru); bool fat = ru.ru_maxrss > 2500000; put(o, fat);
        sendMsg(outfd, o);
        if (dirty || fat) _exit(0);
    }
    _exit(0);
}

struct Worker { pid_t pid = 0; int in = -1, out = -1; bool busy = false; std::vector<Item> work; };
static void spawn(Worker& w, std::vector<Worker>& all) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
    fcntl(a[1], F_SETPIPE_SZ, 1 << 20); fcntl(b[1], F_SETPIPE_SZ, 1 << 20);
    pid_t p = fork();
    if (!p) { close(a[1]); close(b[0]); for (auto& o : all) if (&o != &w && o.pid) { close(o.in); close(o.out); } signal(SIGPIPE, SIG_IGN); workerLoop(a[0], b[1]); _exit(0); }
    close(a[0]); close(b[1]); w.pid = p; w.in = a[1]; w.out = b[0]; w.busy = false;
}
static void reap(Worker& w) { close(w.in); close(w.out); int st; waitpid(w.pid, &st, 0); w.pid = 0; }
static std::string demangle(const std::string& s) { int st; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); std::string r = d && !st ? d : s; free(d); return r; }

__attribute__((constructor)) static void sxInit() {
    pageFlags = (u8*) mmap(nullptr, 1ull << 35, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pageFlags == MAP_FAILED) { perror("mmap"); _exit(3); }
    if (mmap(AR, ARSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*) AR) { perror("arena"); _exit(3); }
    if (mmap(HSTACK, HSTSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*) HSTACK) { perror("stack"); _exit(3); }
    arState = (u8*) mmap(nullptr, (ARSZ >> 4) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arLive = new std::unordered_map<u64, u64>;
}
extern "C" int sx_main(int argc, char** argv, void (*h)(), char* lo, char* hi) {
    harnessFn = h; dataLo = lo; dataLen = hi - lo;
    if (!getenv("SX_NORAND") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        setenv("SX_NORAND", "1", 1); if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) execv("/proc/self/exe", argv);
    }
    int W = 8; double budget = 600; const char* outp = "sx.json"; int maxViol = 1; double after = 1e9, tviol = 0, tstop = 0;
    for (int i = 1; i + 1 < argc; i += 2) { std::string k = argv[i]; if (k == "--workers") W = atoi(argv[i + 1]); else if (k == "--budget") budget = atof(argv[i + 1]); else if (k == "--out") outp = argv[i + 1]; else if (k == "--path-timeout") pathTimeout = atoi(argv[i + 1]); else if (k == "--max-violations") maxViol = atoi(argv[i + 1]); else if (k == "--after-violation") after = atof(argv[i + 1]); else if (k == "--query-timeout") qTimeout = atoi(argv[i + 1]); }
    signal(SIGPIPE, SIG_IGN);
    { std::ostringstream o; o << 1 << ' ' << 2.5 << true << 3ul << -4l << (void*) 0 << std::hex << 7u << std::fixed << 1.5; std::istringstream i("1 2.5 x"); int a; double d; std::string t; i >> a >> d >> t; }
    dataSave = (char*) malloc(dataLen); memcpy(dataSave, dataLo, dataLen);
    double t0 = now();
    std::vector<Worker> ws(W); for (auto& w : ws) spawn(w, ws);
    std::vector<Item> st; st.push_back({ 0, 1, {}, {} });
    Stats T; bool inc = false; std::string incWhy; std::map<std::string, u64> rc, fb; std::set<std::string> fs; std::vector<std::string> samples;
    struct Vi { std::string msg, in, note; }; std::vector<Vi> viols; std::set<std::string> seenMsg;
    bool stop = false;
    for (;;) {
        bool anyBusy = false;
        for (auto& w : ws) {
            if (!w.busy && !st.empty() && !stop) {
                if (!w.pid) spawn(w, ws);
                size_t n = std::max<size_t>(1, std::min<size_t>(st.size() / (2 * W), 64));
                w.work.clear(); for (size_t i = 0; i < n; ++i) { w.work.push_back(std::move(st.back())); st.pop_back(); }
                double tmax = st.size() < (size_t) 4 * W ? 0.05 : 1.0; u64 tb; memcpy(&tb, &tmax, 8);
                std::string m; put(m, T.paths < (u64) W * 4 ? 4 : 5000); put(m, tb); put(m, w.work.size()); for (auto& i : w.work) m += enc(i);
                sendMsg(w.in, m); w.busy = true;
            }
            anyBusy |= w.busy;
        }
        if (!anyBusy) break;
        std::vector<pollfd> pf; std::vector<Worker*> pw; for (auto& w : ws) if (w.busy) { pf.push_back({ w.out, POLLIN, 0 }); pw.push_back(&w); }
        poll(pf.data(), pf.size(), 500);
        for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents) {
            Worker& w = *pw[k]; std::string o;
            if (!recvMsg(w.out, o)) { // the worker died outside a guarded run
                int stt; waitpid(w.pid, &stt, 0); close(w.in); close(w.out); w.pid = 0; w.busy = false;
                char b[100]; snprintf(b, 100, "worker died (status %d)", stt); inc = true; incWhy = b; stop = true; continue;
            }
            const char* p = o.data(); T.paths += get(p); T.ok += get(p); T.pruned += get(p); T.viol += get(p); T.q += get(p); T.sat += get(p); T.unsat += get(p); T.unk += get(p); T.cached += get(p); T.aq += get(p); T.ac += get(p); { u64 m = get(p); if (m > T.maxdec) T.maxdec = m; } T.dec += get(p); { u64 m = get(p); if (m > T.nodes) T.nodes = m; } { u64 b = get(p); double d; memcpy(&d, &b, 8); T.ts += d; }
            bool wi = get(p); std::string wy = getS(p); if (wi) { inc = true; incWhy = wy; stop = true; }
            u64 nv = get(p); while (nv--) { std::string v = getS(p); const char* q = v.data(); Vi x; x.msg = getS(q); x.in = getS(q); x.note = getS(q); if (seenMsg.insert(x.msg).second) viols.push_back(x); if ((int) viols.size() >= maxViol) stop = true; }
            u64 n = get(p); while (n--) st.push_back(dec(p));
            n = get(p); while (n--) { std::string a = getS(p); rc[a] += get(p); }
            n = get(p); while (n--) fs.insert(getS(p));
            n = get(p); while (n--) { std::string a = getS(p); fb[a] += get(p); }
            n = get(p); while (n--) { std::string a = getS(p); if (samples.size() < 3 || (T.paths & (T.paths - 1)) == 0) { if (samples.size() >= 6) samples.pop_back(); samples.push_back(a); } }
            bool dirty = get(p), fat = get(p); w.busy = false; if (dirty || fat) reap(w);
        }
        if (now() - t0 > budget && !stop) { stop = true; inc = true; incWhy = "time budget exhausted with " + std::to_string(st.size()) + " open branches"; }
        if (!viols.empty()) { if (!tviol) tviol = now(); if (now() - tviol > after) stop = true; }
        if (stop) { if (!tstop) tstop = now(); if (now() - tstop > 60) break; }
    }
    for (auto& w : ws) if (w.pid) { kill(w.pid, SIGKILL); reap(w); }
    if (viols.empty() && !st.empty() && !inc) { inc = true; incWhy = "stopped early"; }
    FILE* f = fopen(outp, "w"); if (!f) { perror(outp); return 3; }
    fprintf(f, "{\n\"complete\": %s, \"incomplete_reason\": \"%s\",\n\"paths\": %llu, \"paths_completed\": %llu, \"paths_pruned_by_assumption\": %llu, \"violating_paths\": %llu,\n\"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cached\": %llu, \"solver_s\": %.3f,\n\"assertions_symbolic\": %llu, \"assertions_concrete_on_path\": %llu, \"decisions\": %llu, \"max_decisions_on_a_path\": %llu, \"max_expr_nodes\": %llu, \"wall_s\": %.3f,\n",
        inc ? "false" : "true", esc(incWhy).c_str(), (unsigned long long) T.paths, (unsigned long long) T.ok, (unsigned long long) T.pruned, (unsigned long long) T.viol, (unsigned long long) T.q, (unsigned long long) T.sat, (unsigned long long) T.unsat, (unsigned long long) T.unk, (unsigned long long) T.cached, T.ts, (unsigned long long) T.aq, (unsigned long long) T.ac, (unsigned long long) T.dec, (unsigned long long) T.maxdec, (unsigned long long) T.nodes, now() - t0);
    fprintf(f, "\"reach\": {"); bool c = false; for (auto& [k, v] : rc) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", esc(k).c_str(), (unsigned long long) v); c = true; }
    fprintf(f, "},\n\"functions\": ["); c = false; for (auto& k : fs) { fprintf(f, "%s\"%s\"", c ? ",\n " : "", esc(demangle(k)).c_str()); c = true; }
    fprintf(f, "],\n\"symbolic_decisions_in\": {"); c = false; for (auto& [k, v] : fb) { fprintf(f, "%s\"%s\": %llu", c ? ",\n " : "", esc(demangle(k)).c_str(), (unsigned long long) v); c = true; }
    fprintf(f, "},\n\"samples\": ["); c = false; for (auto& k : samples) { fprintf(f, "%s\"%s\"", c ? ",\n " : "", esc(k).c_str()); c = true; }
    fprintf(f, "],\n\"violations\": ["); c = false; for (auto& v : viols) { fprintf(f, "%s{\"message\": \"%s\", \"inputs\": \"%s\", \"notes\": \"%s\"}", c ? ",\n " : "", esc(v.msg).c_str(), esc(v.in).c_str(), esc(v.note).c_str()); c = true; }
    fprintf(f, "]\n}\n"); fclose(f);
    return !viols.empty() ? 1 : inc ? 2 : 0;
}

// The C++ library releases objects of the program under test as well (deleting destructors of exceptions).
void operator delete(void* p) noexcept { sxFree(p); }
void operator delete(void* p, std::size_t) noexcept { sxFree(p); }
void operator delete[](void* p) noexcept { sxFree(p); }
void operator delete[](void* p, std::size_t) noexcept { sxFree(p); }
