// Hash-consed bit-vector expressions over byte symbols, with construction-time
// simplification, concrete evaluation and translation to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextv(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

enum EOp : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Bits256 {
    u64 b[4];
    static Bits256 all() { return {{~0ull, ~0ull, ~0ull, ~0ull}}; }
    static Bits256 none() { return {{0, 0, 0, 0}}; }
    bool get(unsigned i) const { return b[i >> 6] >> (i & 63) & 1; }
    void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
    bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
    bool full() const { return (b[0] & b[1] & b[2] & b[3]) == ~0ull; }
    int count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
    int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
    Bits256 operator&(const Bits256 &o) const { return {{b[0] & o.b[0], b[1] & o.b[1], b[2] & o.b[2], b[3] & o.b[3]}}; }
    Bits256 operator|(const Bits256 &o) const { return {{b[0] | o.b[0], b[1] | o.b[1], b[2] | o.b[2], b[3] | o.b[3]}}; }
    Bits256 operator~() const { return {{~b[0], ~b[1], ~b[2], ~b[3]}}; }
    bool operator==(const Bits256 &o) const { return !memcmp(b, o.b, sizeof b); }
};

static const int MAXSYM = 512;
struct SymSet {
    u64 b[MAXSYM / 64];
    void clear() { memset(b, 0, sizeof b); }
    void add(int i) { b[i >> 6] |= 1ull << (i & 63); }
    bool has(int i) const { return b[i >> 6] >> (i & 63) & 1; }
    bool inter(const SymSet &o) const { for (int i = 0; i < MAXSYM / 64; i++) if (b[i] & o.b[i]) return true; return false; }
    void join(const SymSet &o) { for (int i = 0; i < MAXSYM / 64; i++) b[i] |= o.b[i]; }
    int count() const { int c = 0; for (auto x : b) c += __builtin_popcountll(x); return c; }
};

struct Expr {
    EOp op; unsigned short w; u32 id; u32 lo; u32 leaves; // leaves: >0 when an ITE tree with constant leaves
    u128 c; Expr *a, *b, *d; u64 hash;
    SymSet *sup; int nsup; int s0;
    Bits256 *truth;
    Z3_ast zbv, zbool;
    u64 epoch; u128 val;
};

struct ExprCtx {
    std::unordered_multimap<u64, Expr *> table;
    std::vector<Expr *> all;
    Z3_context z;
    Z3_sort bvsort[129];
    u64 epoch = 1;
    const u8 *model = nullptr;
    std::vector<SymSet *> symsets;

    void init() {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg);
        memset(bvsort, 0, sizeof bvsort);
        table.reserve(1 << 16);
    }
    Z3_sort bv(unsigned w) { if (!bvsort[w]) { bvsort[w] = Z3_mk_bv_sort(z, w); } return bvsort[w]; }

    static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

    Expr *raw(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c, u32 lo) {
        u64 h = mix(op * 1315423911u + w, (u64)c); h = mix(h, (u64)(c >> 64)); h = mix(h, lo);
        h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, d ? d->id + 1 : 0);
        auto r = table.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            Expr *e = it->second;
            if (e->op == op && e->w == w && e->a == a && e->b == b && e->d == d && e->c == c && e->lo == lo) return e;
        }
        Expr *e = new Expr();
        e->op = op; e->w = w; e->a = a; e->b = b; e->d = d; e->c = c; e->lo = lo; e->hash = h; e->id = all.size();
        e->truth = nullptr; e->zbv = e->zbool = nullptr; e->epoch = 0; e->leaves = 0;
        if (op == CONST) e->leaves = 1;
        else if (op == ITE && b->leaves && d->leaves && b->leaves + d->leaves <= 64) e->leaves = b->leaves + d->leaves;
        // support
        if (op == CONST) { e->sup = nullptr; e->nsup = 0; e->s0 = -1; }
        else if (op == SYM) { e->sup = new SymSet(); e->sup->clear(); e->sup->add((int)c); e->nsup = 1; e->s0 = (int)c; }
        else {
            Expr *k[3] = {a, b, d}; SymSet *one = nullptr; bool same = true; int cnt = 0; Expr *big = nullptr;
            for (auto x : k) if (x && x->nsup) { if (!one) { one = x->sup; big = x; } else if (x->sup != one) { same = false; } cnt++; }
            if (!one) { e->sup = nullptr; e->nsup = 0; e->s0 = -1; }
            else if (same) { e->sup = one; e->nsup = big->nsup; e->s0 = big->s0; }
            else {
                SymSet t; t.clear(); for (auto x : k) if (x && x->nsup) t.join(*x->sup);
                int n = t.count();
                SymSet *use = nullptr;
                for (auto x : k) if (x && x->nsup == n) { use = x->sup; break; }
                e->sup = use ? use : new SymSet(t); e->nsup = n;
                e->s0 = -1; for (int i = 0; i < MAXSYM && e->s0 < 0; i++) if (t.has(i)) e->s0 = i;
            }
        }
        all.push_back(e);
        table.emplace(h, e);
        return e;
    }
    Expr *cst(u128 v, unsigned w) { return raw(CONST, w, nullptr, nullptr, nullptr, v & maskw(w), 0); }
    Expr *sym(int i) { return raw(SYM, 8, nullptr, nullptr, nullptr, (u128)i, 0); }
    static bool isc(Expr *e) { return e->op == CONST; }

    static u128 apply(EOp op, unsigned w, unsigned wa, u128 x, u128 y) {
        u128 m = maskw(w);
        switch (op) {
        case ADD: return (x + y) & m;
        case SUB: return (x - y) & m;
        case MUL: return (x * y) & m;
        case UDIV: return y ? x / y : m;
        case UREM: return y ? x % y : x;
        case SDIV: { i128 a = sextv(x, w), b = sextv(y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return (u128)(0 - (u128)a) & m; return (u128)(a / b) & m; }
        case SREM: { i128 a = sextv(x, w), b = sextv(y, w); if (b == 0) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
        case AND: return x & y;
        case OR: return x | y;
        case XOR: return x ^ y;
        case SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
        case LSHR: return y >= w ? 0 : x >> (unsigned)y;
        case ASHR: { i128 a = sextv(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
        case EQ: return x == y;
        case ULT: return x < y;
        case ULE: return x <= y;
        case SLT: return sextv(x, wa) < sextv(y, wa);
        case SLE: return sextv(x, wa) <= sextv(y, wa);
        default: abort();
        }
    }

    Expr *notb(Expr *e) { return bin(XOR, e, cst(1, 1)); }

    // fold boolean single-symbol expressions that are constant over the whole byte
    Expr *normb(Expr *e) {
        if (e->w == 1 && e->nsup == 1 && e->op != CONST) {
            Bits256 &t = truth(e);
            if (t.full()) return cst(1, 1);
            if (t.empty()) return cst(0, 1);
        }
        return e;
    }

    Expr *mapLeaves(Expr *e, const std::function<Expr *(Expr *)> &f) {
        if (e->op == CONST) return f(e);
        return ite(e->a, mapLeaves(e->b, f), mapLeaves(e->d, f));
    }

    void segs(Expr *e, std::vector<Expr *> &out) { // high to low
        if (e->op == CONCAT) { segs(e->a, out); segs(e->b, out); }
        else if (e->op == ZEXT) { out.push_back(cst(0, e->w - e->a->w)); segs(e->a, out); }
        else out.push_back(e);
    }

    Expr *orDisjoint(Expr *a, Expr *b) { // nullptr if not obviously disjoint by segments
        if (!((a->op == CONCAT || a->op == ZEXT || a->op == CONST) && (b->op == CONCAT || b->op == ZEXT || b->op == CONST))) return nullptr;
        std::vector<Expr *> x, y; segs(a, x); segs(b, y);
        size_t i = 0, j = 0; unsigned ou = 0, ov = 0; // consumed bits (from the top) of x[i], y[j]
        Expr *res = nullptr;
        while (i < x.size() && j < y.size()) {
            unsigned rx = x[i]->w - ou, ry = y[j]->w - ov, n = std::min(rx, ry);
            Expr *px = extract(x[i], rx - 1, rx - n), *py = extract(y[j], ry - 1, ry - n);
            Expr *p;
            if (isc(px) && px->c == 0) p = py;
            else if (isc(py) && py->c == 0) p = px;
            else if (isc(px) && isc(py)) p = cst(px->c | py->c, n);
            else return nullptr;
            res = res ? concat(res, p) : p;
            ou += n; ov += n;
            if (ou == x[i]->w) { i++; ou = 0; }
            if (ov == y[j]->w) { j++; ov = 0; }
        }
        return res;
    }

    static unsigned topzeros(Expr *e) { // number of leading bits known zero
        if (e->op == CONST) { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return n; }
        if (e->op == ZEXT) return e->w - e->a->w + topzeros(e->a);
        if (e->op == CONCAT) { unsigned t = topzeros(e->a); return t == e->a->w ? t + topzeros(e->b) : t; }
        if (e->op == ITE) return std::min(topzeros(e->b), topzeros(e->d));
        if (e->op == AND) return std::max(topzeros(e->a), topzeros(e->b));
        if (e->op == OR || e->op == XOR) return std::min(topzeros(e->a), topzeros(e->b));
        if (e->op == UREM && isc(e->b)) return topzeros(e->b);
        if (e->op == UDIV) return topzeros(e->a);
        if (e->op == ADD) { unsigned t = std::min(topzeros(e->a), topzeros(e->b)); return t ? t - 1 : 0; }
        if (e->op == MUL) { int t = (int)topzeros(e->a) + (int)topzeros(e->b) - (int)e->w; return t > 0 ? t : 0; }
        return 0;
    }

    Expr *bin(EOp op, Expr *a, Expr *b) {
        unsigned w = (op >= EQ && op <= SLE) ? 1 : a->w;
        unsigned wa = a->w;
        if (isc(a) && isc(b)) return cst(apply(op, w, wa, a->c, b->c), w);
        // commutative: constant to the right, otherwise order by id
        if (op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ) {
            if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
        }
        u128 m = maskw(wa);
        // constant-leaf ITE trees
        if (isc(b) && a->op == ITE && a->leaves && !(wa == 1)) return mapLeaves(a, [&](Expr *k) { return bin(op, k, b); });
        if (isc(a) && b->op == ITE && b->leaves && !(wa == 1)) return mapLeaves(b, [&](Expr *k) { return bin(op, a, k); });
        switch (op) {
        case ADD:
            if (isc(b)) {
                if (b->c == 0) return a;
                if (a->op == ADD && isc(a->b)) return bin(ADD, a->a, cst(a->b->c + b->c, w));
            }
            if (w == 1) return bin(XOR, a, b);
            break;
        case SUB:
            if (isc(b)) return bin(ADD, a, cst(0 - b->c, w));
            if (a == b) return cst(0, w);
            if (w == 1) return bin(XOR, a, b);
            if (a->op == ADD && a->a == b) return a->b;
            if (a->op == ADD && a->b == b) return a->a;
            break;
        case MUL:
            if (isc(b)) {
                if (b->c == 0) return b;
                if (b->c == 1) return a;
                if ((b->c & (b->c - 1)) == 0) { unsigned k = 0; while (!((b->c >> k) & 1)) k++; return bin(SHL, a, cst(k, w)); }
            }
            break;
        case UDIV:
            if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned k = 0; while (!((b->c >> k) & 1)) k++; return bin(LSHR, a, cst(k, w)); }
            { unsigned tz = std::min(topzeros(a), topzeros(b)); if (isc(b) && b->c && tz && tz < w) { unsigned n = w - tz; if (n < w) return zext(raw(UDIV, n, extract(a, n - 1, 0), extract(b, n - 1, 0), nullptr, 0, 0), w); } }
            break;
        case UREM:
            if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(AND, a, cst(b->c - 1, w));
            { unsigned tz = std::min(topzeros(a), topzeros(b)); if (isc(b) && b->c && tz && tz < w) { unsigned n = w - tz; if (n < w) return zext(raw(UREM, n, extract(a, n - 1, 0), extract(b, n - 1, 0), nullptr, 0, 0), w); } }
            break;
        case AND:
            if (a == b) return a;
            if (isc(b)) {
                if (b->c == 0) return b;
                if (b->c == m) return a;
                if (a->op == ZEXT) return zext(bin(AND, a->a, cst(b->c, a->a->w)), w);
                if (a->op == CONCAT) return concat(bin(AND, a->a, cst(b->c >> a->b->w, a->a->w)), bin(AND, a->b, cst(b->c, a->b->w)));
                if ((b->c & (b->c + 1)) == 0) { unsigned k = 0; while ((b->c >> k) & 1) k++; return zext(extract(a, k - 1, 0), w); }
                if (a->op == AND && isc(a->b)) return bin(AND, a->a, cst(a->b->c & b->c, w));
            }
            if (w == 1) {
                if (a->op == XOR && isc(a->b) && a->a == b) return cst(0, 1);
                if (b->op == XOR && isc(b->b) && b->a == a) return cst(0, 1);
                return normb(raw(op, w, a, b, nullptr, 0, 0));
            }
            break;
        case OR:
            if (a == b) return a;
            if (isc(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
            if (w == 1) {
                if (a->op == XOR && isc(a->b) && a->a == b) return cst(1, 1);
                if (b->op == XOR && isc(b->b) && b->a == a) return cst(1, 1);
                return normb(raw(op, w, a, b, nullptr, 0, 0));
            }
            if (Expr *r = orDisjoint(a, b)) return r;
            if (a->op == ZEXT && b->op == ZEXT) { unsigned k = std::max(a->a->w, b->a->w); return zext(bin(OR, zext(a->a, k), zext(b->a, k)), w); }
            break;
        case XOR:
            if (a == b) return cst(0, w);
            if (isc(b)) {
                if (b->c == 0) return a;
                if (a->op == XOR && isc(a->b)) return bin(XOR, a->a, cst(a->b->c ^ b->c, w));
                if (w == 1) { // negation
                    if (a->op == ULT) return bin(ULE, a->b, a->a);
                    if (a->op == ULE) return bin(ULT, a->b, a->a);
                    if (a->op == SLT) return bin(SLE, a->b, a->a);
                    if (a->op == SLE) return bin(SLT, a->b, a->a);
                }
                if (a->op == ZEXT) { // split
                    unsigned k = a->a->w;
                    return concat(cst(b->c >> k, w - k), bin(XOR, a->a, cst(b->c, k)));
                }
                if (a->op == CONCAT) return concat(bin(XOR, a->a, cst(b->c >> a->b->w, a->a->w)), bin(XOR, a->b, cst(b->c, a->b->w)));
            }
            if (a->op == ZEXT && b->op == ZEXT) { unsigned k = std::max(a->a->w, b->a->w); return zext(bin(XOR, zext(a->a, k), zext(b->a, k)), w); }
            break;
        case SHL:
            if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return cst(0, w); unsigned k = (unsigned)b->c; return concat(extract(a, w - 1 - k, 0), cst(0, k)); }
            break;
        case LSHR:
            if (isc(b)) { if (b->c == 0) return a; if (b->c >= w) return cst(0, w); unsigned k = (unsigned)b->c; return zext(extract(a, w - 1, k), w); }
            break;
        case ASHR:
            if (isc(b)) { if (b->c == 0) return a; unsigned k = b->c >= w ? w - 1 : (unsigned)b->c; if (topzeros(a)) return bin(LSHR, a, cst(k, w)); return sext(extract(a, w - 1, k), w); }
            break;
        case EQ:
            if (a == b) return cst(1, 1);
            if (isc(b)) {
                if (wa == 1) return b->c ? a : notb(a);
                if (a->op == ZEXT) { if (b->c >> a->a->w) return cst(0, 1); return bin(EQ, a->a, cst(b->c, a->a->w)); }
                if (a->op == SEXT) { u128 t = b->c & maskw(a->a->w); if (((u128)sextv(t, a->a->w) & m) != b->c) return cst(0, 1); return bin(EQ, a->a, cst(t, a->a->w)); }
                if (a->op == CONCAT) return bin(AND, bin(EQ, a->a, cst(b->c >> a->b->w, a->a->w)), bin(EQ, a->b, cst(b->c, a->b->w)));
                if (a->op == ADD && isc(a->b)) return bin(EQ, a->a, cst(b->c - a->b->c, wa));
                if (a->op == XOR && isc(a->b)) return bin(EQ, a->a, cst(b->c ^ a->b->c, wa));
                if (a->op == XOR && b->c == 0) return bin(EQ, a->a, a->b);
                if (a->op == OR && b->c == 0) return bin(AND, bin(EQ, a->a, b), bin(EQ, a->b, b));
                if (a->op == ITE) { // one constant arm
                    if (isc(a->b) && a->b->c != b->c) return bin(AND, notb(a->a), bin(EQ, a->d, b));
                    if (isc(a->d) && a->d->c != b->c) return bin(AND, a->a, bin(EQ, a->b, b));
                    if (isc(a->b)) return bin(OR, a->a, bin(EQ, a->d, b));
                    if (isc(a->d)) return bin(OR, notb(a->a), bin(EQ, a->b, b));
                }
            }
            if (wa == 1) return notb(bin(XOR, a, b));
            if (a->op == ZEXT && b->op == ZEXT) { unsigned k = std::max(a->a->w, b->a->w); return bin(EQ, zext(a->a, k), zext(b->a, k)); }
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return bin(AND, bin(EQ, a->a, b->a), bin(EQ, a->b, b->b));
            if (a->op == ADD && b->op == ADD && isc(a->b) && isc(b->b)) { if (a->b == b->b) return bin(EQ, a->a, b->a); return bin(EQ, a->a, bin(ADD, b->a, cst(b->b->c - a->b->c, wa))); }
            break;
        case ULT:
            if (a == b) return cst(0, 1);
            if (isc(b)) { if (b->c == 0) return cst(0, 1); if (b->c == 1) return bin(EQ, a, cst(0, wa)); if (b->c == m) return notb(bin(EQ, a, b)); }
            if (isc(a)) { if (a->c == m) return cst(0, 1); if (a->c == 0) return notb(bin(EQ, b, a)); }
            { unsigned tz = std::min(topzeros(a), topzeros(b)); if (tz >= wa) tz = wa - 1; if (tz) { unsigned n = wa - tz; return bin(ULT, extract(a, n - 1, 0), extract(b, n - 1, 0)); } }
            if (isc(b) && topzeros(a) > topzeros(b)) return cst(1, 1);
            if (isc(a) && topzeros(b) > topzeros(a)) return cst(0, 1);
            if (wa == 1) return bin(AND, notb(a), b);
            break;
        case ULE:
            if (a == b) return cst(1, 1);
            if (isc(b)) { if (b->c == m) return cst(1, 1); return bin(ULT, a, cst(b->c + 1, wa)); }
            if (isc(a)) { if (a->c == 0) return cst(1, 1); return bin(ULT, cst(a->c - 1, wa), b); }
            { unsigned tz = std::min(topzeros(a), topzeros(b)); if (tz >= wa) tz = wa - 1; if (tz) { unsigned n = wa - tz; return bin(ULE, extract(a, n - 1, 0), extract(b, n - 1, 0)); } }
            if (wa == 1) return bin(OR, notb(a), b);
            break;
        case SLT: case SLE:
            if (a == b) return cst(op == SLE, 1);
            if (topzeros(a) && topzeros(b)) return bin(op == SLT ? ULT : ULE, a, b);
            if (isc(b) && b->c == 0 && op == SLT && wa > 1) return extract(a, wa - 1, wa - 1);
            if (isc(b) && b->c == m && op == SLE && wa > 1) return extract(a, wa - 1, wa - 1);
            if (isc(a) && a->c == m && op == SLT && wa > 1) return notb(extract(b, wa - 1, wa - 1));
            if (isc(a) && a->c == 0 && op == SLE && wa > 1) return notb(extract(b, wa - 1, wa - 1));
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
            break;
        default: break;
        }
        Expr *e = raw(op, w, a, b, nullptr, 0, 0);
        return w == 1 ? normb(e) : e;
    }

    Expr *extract(Expr *a, unsigned hi, unsigned lo) {
        unsigned w = hi - lo + 1;
        if (w == a->w) return a;
        switch (a->op) {
        case CONST: return cst(a->c >> lo, w);
        case EXTRACT: return extract(a->a, hi + a->lo, lo + a->lo);
        case CONCAT: {
            unsigned bw = a->b->w;
            if (lo >= bw) return extract(a->a, hi - bw, lo - bw);
            if (hi < bw) return extract(a->b, hi, lo);
            return concat(extract(a->a, hi - bw, 0), extract(a->b, bw - 1, lo));
        }
        case ZEXT: {
            unsigned k = a->a->w;
            if (lo >= k) return cst(0, w);
            if (hi < k) return extract(a->a, hi, lo);
            return zext(extract(a->a, k - 1, lo), w);
        }
        case SEXT: {
            unsigned k = a->a->w;
            if (hi < k) return extract(a->a, hi, lo);
            if (lo < k) return sext(extract(a->a, k - 1, lo), w);
            return sext(extract(a->a, k - 1, k - 1), w);
        }
        case AND: case OR: case XOR: return bin(a->op, extract(a->a, hi, lo), extract(a->b, hi, lo));
        case ADD: case SUB: case MUL: if (lo == 0) return bin(a->op, extract(a->a, hi, 0), extract(a->b, hi, 0)); break;
        case ITE: if (a->leaves || isc(a->b) || isc(a->d)) return ite(a->a, extract(a->b, hi, lo), extract(a->d, hi, lo)); break;
        default: break;
        }
        return normb(raw(EXTRACT, w, a, nullptr, nullptr, 0, lo));
    }
    Expr *concat(Expr *a, Expr *b) { // a high
        unsigned w = a->w + b->w;
        if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
        if (isc(a) && isc(b)) return cst((a->c << b->w) | b->c, w);
        if (isc(a) && a->c == 0) return zext(b, w);
        if (a->op == CONCAT) return concat(a->a, concat(a->b, b));
        if (a->op == ZEXT) return zext(concat(a->a, b), w);
        if (isc(a) && b->op == CONCAT && isc(b->a)) return concat(cst((a->c << b->a->w) | b->a->c, a->w + b->a->w), b->b);
        if (isc(a) && b->op == ZEXT) return concat(cst(a->c << (b->w - b->a->w), a->w + b->w - b->a->w), b->a);
        // merge adjacent extracts
        auto piece = [](Expr *e, Expr *&src, unsigned &hi, unsigned &lo) {
            if (e->op == EXTRACT) { src = e->a; lo = e->lo; hi = e->lo + e->w - 1; return true; }
            src = e; lo = 0; hi = e->w - 1; return true;
        };
        Expr *sa, *sb; unsigned ha, la, hb, lb;
        piece(a, sa, ha, la);
        Expr *bh = b->op == CONCAT ? b->a : b;
        piece(bh, sb, hb, lb);
        if (sa == sb && la == hb + 1) {
            Expr *mgd = extract(sa, ha, lb);
            return b->op == CONCAT ? concat(mgd, b->b) : mgd;
        }
        return raw(CONCAT, w, a, b, nullptr, 0, 0);
    }
    Expr *zext(Expr *a, unsigned w) {
        if (w == a->w) return a;
        if (isc(a)) return cst(a->c, w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->op == ITE && a->leaves) return mapLeaves(a, [&](Expr *k) { return cst(k->c, w); });
        return raw(ZEXT, w, a, nullptr, nullptr, 0, 0);
    }
    Expr *sext(Expr *a, unsigned w) {
        if (w == a->w) return a;
        if (isc(a)) return cst((u128)sextv(a->c, a->w), w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->op == SEXT) return sext(a->a, w);
        if (a->w == 1) return ite(a, cst(maskw(w), w), cst(0, w));
        if (topzeros(a)) return zext(a, w);
        if (a->op == ITE && a->leaves) return mapLeaves(a, [&](Expr *k) { return sext(k, w); });
        return raw(SEXT, w, a, nullptr, nullptr, 0, 0);
    }
    Expr *ite(Expr *c, Expr *t, Expr *f) {
        if (isc(c)) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isc(t)) return t->c ? bin(OR, c, f) : bin(AND, notb(c), f);
            if (isc(f)) return f->c ? bin(OR, notb(c), t) : bin(AND, c, t);
        }
        if (c->op == XOR && isc(c->b)) return ite(c->a, f, t);
        if (t->op == ITE && t->a == c) t = t->b;
        if (f->op == ITE && f->a == c) f = f->d;
        if (t == f) return t;
        // zext out of both arms
        Expr *e = raw(ITE, t->w, c, t, f, 0, 0);
        return t->w == 1 ? normb(e) : e;
    }
    Expr *fromBits(int s, const Bits256 &t) {
        if (t.full()) return cst(1, 1);
        if (t.empty()) return cst(0, 1);
        Expr *x = sym(s); Expr *r = cst(0, 1);
        int i = 0;
        while (i < 256) {
            if (!t.get(i)) { i++; continue; }
            int j = i; while (j + 1 < 256 && t.get(j + 1)) j++;
            Expr *p = i == j ? bin(EQ, x, cst(i, 8)) : bin(AND, bin(ULE, cst(i, 8), x), bin(ULE, x, cst(j, 8)));
            r = bin(OR, r, p);
            i = j + 1;
        }
        return r;
    }

    // evaluation under ->model
    u128 ev(Expr *e) {
        if (e->op == CONST) return e->c;
        if (e->op == SYM) return model[(int)e->c];
        if (e->epoch == epoch) return e->val;
        u128 r;
        switch (e->op) {
        case ITE: r = ev(e->a) ? ev(e->b) : ev(e->d); break;
        case CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        case EXTRACT: r = (ev(e->a) >> e->lo) & maskw(e->w); break;
        case ZEXT: r = ev(e->a); break;
        case SEXT: r = (u128)sextv(ev(e->a), e->a->w) & maskw(e->w); break;
        default: r = apply(e->op, e->w, e->a->w, ev(e->a), ev(e->b));
        }
        e->epoch = epoch; e->val = r;
        return r;
    }
    u128 eval(Expr *e, const u8 *m) { model = m; epoch++; return ev(e); }

    Bits256 &truth(Expr *e) {
        if (e->truth) return *e->truth;
        Bits256 *t = new Bits256(Bits256::none());
        // structural shortcuts
        if (e->op == AND && e->a->nsup == 1 && e->b->nsup == 1) *t = truth(e->a) & truth(e->b);
        else if (e->op == OR && e->a->nsup == 1 && e->b->nsup == 1) *t = truth(e->a) | truth(e->b);
        else if (e->op == XOR && e->b->op == CONST && e->b->c == 1 && e->w == 1) *t = ~truth(e->a);
        else {
            static u8 tmp[MAXSYM];
            for (int i = 0; i < 256; i++) { tmp[e->s0] = i; if (eval(e, tmp)) t->set(i); }
        }
        e->truth = t;
        return *t;
    }

    // Z3 translation
    Z3_ast num(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, bv(w));
        Z3_ast hi = Z3_mk_unsigned_int64(z, (u64)(v >> 64), bv(w - 64)), lo = Z3_mk_unsigned_int64(z, (u64)v, bv(64));
        return Z3_mk_concat(z, hi, lo);
    }
    Z3_ast zB(Expr *e) { // as Bool
        if (e->zbool) return e->zbool;
        Z3_ast r;
        switch (e->op) {
        case CONST: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
        case EQ: r = Z3_mk_eq(z, zV(e->a), zV(e->b)); break;
        case ULT: r = Z3_mk_bvult(z, zV(e->a), zV(e->b)); break;
        case ULE: r = Z3_mk_bvule(z, zV(e->a), zV(e->b)); break;
        case SLT: r = Z3_mk_bvslt(z, zV(e->a), zV(e->b)); break;
        case SLE: r = Z3_mk_bvsle(z, zV(e->a), zV(e->b)); break;
        case AND: { Z3_ast k[2] = {zB(e->a), zB(e->b)}; r = Z3_mk_and(z, 2, k); break; }
        case OR: { Z3_ast k[2] = {zB(e->a), zB(e->b)}; r = Z3_mk_or(z, 2, k); break; }
        case XOR: r = (e->b->op == CONST) ? (e->b->c ? Z3_mk_not(z, zB(e->a)) : zB(e->a)) : Z3_mk_xor(z, zB(e->a), zB(e->b)); break;
        case ITE: r = Z3_mk_ite(z, zB(e->a), zB(e->b), zB(e->d)); break;
        default: r = Z3_mk_eq(z, zV(e), num(1, 1)); break;
        }
        return e->zbool = r;
    }
    Z3_ast zV(Expr *e) {
        if (e->zbv) return e->zbv;
        Z3_ast r;
        switch (e->op) {
        case CONST: r = num(e->c, e->w); break;
        case SYM: { char nm[32]; snprintf(nm, sizeof nm, "b%d", (int)e->c); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), bv(8)); break; }
        case ADD: r = Z3_mk_bvadd(z, zV(e->a), zV(e->b)); break;
        case SUB: r = Z3_mk_bvsub(z, zV(e->a), zV(e->b)); break;
        case MUL: r = Z3_mk_bvmul(z, zV(e->a), zV(e->b)); break;
        case UDIV: r = Z3_mk_bvudiv(z, zV(e->a), zV(e->b)); break;
        case SDIV: r = Z3_mk_bvsdiv(z, zV(e->a), zV(e->b)); break;
        case UREM: r = Z3_mk_bvurem(z, zV(e->a), zV(e->b)); break;
        case SREM: r = Z3_mk_bvsrem(z, zV(e->a), zV(e->b)); break;
        case SHL: r = Z3_mk_bvshl(z, zV(e->a), zV(e->b)); break;
        case LSHR: r = Z3_mk_bvlshr(z, zV(e->a), zV(e->b)); break;
        case ASHR: r = Z3_mk_bvashr(z, zV(e->a), zV(e->b)); break;
        case CONCAT: r = Z3_mk_concat(z, zV(e->a), zV(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(z, e->lo + e->w - 1, e->lo, zV(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, zV(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, zV(e->a)); break;
        case ITE: r = Z3_mk_ite(z, zB(e->a), zV(e->b), zV(e->d)); break;
        case AND: if (e->w == 1) goto viabool; r = Z3_mk_bvand(z, zV(e->a), zV(e->b)); break;
        case OR: if (e->w == 1) goto viabool; r = Z3_mk_bvor(z, zV(e->a), zV(e->b)); break;
        case XOR: if (e->w == 1) goto viabool; r = Z3_mk_bvxor(z, zV(e->a), zV(e->b)); break;
        default:
        viabool:
            r = Z3_mk_ite(z, zB(e), num(1, 1), num(0, 1)); break;
        }
        return e->zbv = r;
    }
    Z3_ast zDom(int s, const Bits256 &t) {
        Expr *r = fromBits(s, t);
        return zB(r);
    }
};
