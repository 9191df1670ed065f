// lsx: symbolic execution of LLVM IR with Z3 (all paths, DFS, multi-process).
#include "ir.hpp"
#include <z3.h>
#include <set>
#include <deque>
#include <memory>
#include <cmath>
#include <ctime>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <atomic>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static ExprCtx X;
static Module M;

// ---------------------------------------------------------------- memory
static const unsigned PB = 8, PS = 1 << PB;            // 256-byte pages
static const unsigned TB = 8, TS = 1 << TB;            // 256 pages per table (64 KiB)
struct Page { int rc; int nsym; Expr **sym; u8 d[PS]; };
struct Table { int rc; Page *p[TS]; };
struct Mem {
    std::vector<Table *> t;
    Mem() { t.resize((512u << 20) >> (PB + TB), nullptr); }
    Mem(const Mem &o) : t(o.t) { for (auto x : t) if (x) x->rc++; }
    Mem(Mem &&o) noexcept : t(std::move(o.t)) { o.t.clear(); }
    Mem &operator=(Mem &&o) noexcept { std::swap(t, o.t); return *this; }
    ~Mem() { for (auto x : t) if (x) drop(x); }
    static void dropP(Page *p) { if (--p->rc == 0) { if (p->sym) free(p->sym); free(p); } }
    static void drop(Table *x) { if (--x->rc == 0) { for (auto p : x->p) if (p) dropP(p); delete x; } }
    inline Page *rd(u64 a) const { u64 i = a >> (PB + TB); if (i >= t.size()) return nullptr; Table *x = t[i]; return x ? x->p[(a >> PB) & (TS - 1)] : nullptr; }
    Page *wr(u64 a, bool create) {
        u64 i = a >> (PB + TB); if (i >= t.size()) return nullptr;
        Table *x = t[i];
        if (!x) { if (!create) return nullptr; x = new Table(); x->rc = 1; memset(x->p, 0, sizeof x->p); t[i] = x; }
        else if (x->rc > 1) { Table *y = new Table(*x); y->rc = 1; for (auto p : y->p) if (p) p->rc++; x->rc--; t[i] = x = y; }
        Page *&p = x->p[(a >> PB) & (TS - 1)];
        if (!p) { if (!create) return nullptr; p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; }
        else if (p->rc > 1) { Page *q = (Page *)malloc(sizeof(Page)); memcpy(q, p, sizeof(Page)); q->rc = 1; if (p->sym) { q->sym = (Expr **)malloc(PS * sizeof(Expr *)); memcpy(q->sym, p->sym, PS * sizeof(Expr *)); } p->rc--; p = q; }
        return p;
    }
    void map(u64 a, u64 n) { for (u64 x = a & ~(u64)(PS - 1); x < a + n; x += PS) wr(x, true); }
};

// ---------------------------------------------------------------- state
// file system model: names to inodes; contents may be symbolic; copied on write
struct Inode { bool dir = false; std::vector<u8> d; std::vector<Expr *> e; u64 mtime = 1; };
struct OpenFile { bool listed = false; std::vector<std::pair<std::string, int>> list; int ino; u64 off; bool append, dirh; std::string path; };
struct FsModel {
    std::map<std::string, int> names; std::vector<Inode> inodes; std::map<int, std::shared_ptr<OpenFile>> fds; std::string cwd = "/wd"; u64 clock = 1;
    FsModel() { for (auto p : {"/", "/wd", "/w", "/tmp"}) { Inode i; i.dir = true; inodes.push_back(i); names[p] = (int)inodes.size() - 1; } }
};
struct Frame { Func *f; int pc; u64 base; u64 sp; int retDst; int retEdge; };
struct InputRec { u32 first; u32 len; };
struct State {
    std::vector<Frame> fr; std::vector<Slot> regs; Mem mem;
    u64 sp = 0, brk = 0; std::vector<u64> freeHead;
    std::vector<Expr *> multi;      // multi-symbol constraints
    std::vector<Bits256> dom; std::vector<u8> model; std::vector<u8> inMulti;
    std::set<u32> covers; u64 instrs = 0; u32 forks = 0;
    std::vector<std::pair<Expr *, u64>> obs;
    u64 asserts = 0;
    u64 lastErrno = 0; std::shared_ptr<struct FsModel> fs;
    std::map<std::string, u64> env;
};

struct Fail { std::string kind; u64 id; std::string msg; std::vector<u8> bytes; std::string stack; };
struct Stats {
    u64 paths = 0, assumeCut = 0, failed = 0, incomplete = 0, instrs = 0, zq = 0, zsat = 0, zunsat = 0, domq = 0, cacheq = 0, repair = 0, forks = 0, assertsSym = 0, assertsConc = 0, maxPathInstr = 0; double ztime = 0;
};
static Stats ST;
static std::vector<Fail> FAILS;
static std::map<std::string, u64> INCOMPLETE;
static std::map<u64, std::vector<u8>> COVERS;
struct Sample { std::vector<u8> bytes; std::vector<u64> obs; std::vector<u64> covers; };
static std::vector<Sample> SAMPLES;
static std::vector<u8> COVBITS;
static std::map<u64, u64> ASSERTIDS; // id -> evaluations
static std::vector<u64> PARAMS;
static double T0, TLIM = 600; static u64 MAXI = 200000000; static int JOBS = 8; static u64 MAXPATHS = ~0ull; static size_t NSAMPLES = 8; static unsigned ZTIMEOUT = 60000; static bool XCHECK = false;
static u64 XCHECKS = 0, XDISAGREE = 0;
static std::vector<std::unique_ptr<State>> WORK;
static State *S;
static Z3_solver SOLVER;
static size_t NFAILS_MAX = 3;
static std::map<std::string, u64> FAILCOUNT;
static bool STOP = false;
static std::set<u64> KNOWNIDS; static u64 MAXFAILS = 12;
static std::atomic<u64> *FAILCTR = nullptr; // shared between workers
static u64 seedv = 1;

struct PathEnd { int kind; }; // 0 done,1 assume cut,2 fail,3 incomplete

static const u64 STACKBASE = 0x8000000, STACKSIZE = 8 << 20, HEAPBASE = 0xA000000, HEAPEND = 0x1FF00000;

[[noreturn]] static void endPath(int k) { throw PathEnd{k}; }
static std::string stackStr() {
    std::string r; int n = 0;
    for (int i = (int)S->fr.size() - 1; i >= 0 && n < 24; i--, n++) {
        Frame &f = S->fr[i]; int pc = f.pc; if (i != (int)S->fr.size() - 1) pc--; 
        std::string nm = f.f->name; r += nm; int c = pc >= 0 && pc < (int)f.f->code.size() ? f.f->code[pc].cov : -1; if (c >= 0) r += "@" + M.covs[c].file + ":" + std::to_string(M.covs[c].line); r += " < ";
    }
    return r;
}
[[noreturn]] static void incomplete(const std::string &why) { INCOMPLETE[why]++; if (getenv("LSX_DEBUG")) fprintf(stderr, "INCOMPLETE %s\n  at %s\n", why.c_str(), stackStr().c_str()); endPath(3); }
static void recordFail(const std::string &kind, u64 id, const std::string &msg, const std::vector<u8> &model) {
    std::string key = kind + "#" + std::to_string(id);
    if (!(kind == "assert" && KNOWNIDS.count(id)) && FAILCTR) FAILCTR->fetch_add(1);
    if (FAILCOUNT[key]++ < NFAILS_MAX) FAILS.push_back({kind, id, msg, model, stackStr()});
}

// ---------------------------------------------------------------- solver
static std::unordered_map<u64, std::pair<int, std::vector<u8>>> QCACHE;

static void slice(const std::vector<Expr *> &seed, std::vector<Expr *> &out, SymSet &sup) {
    sup.clear(); for (auto e : seed) if (e->nsup) sup.join(*e->sup);
    std::vector<char> used(S->multi.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < S->multi.size(); i++) if (!used[i] && S->multi[i]->nsup && S->multi[i]->sup->inter(sup)) { used[i] = 1; sup.join(*S->multi[i]->sup); out.push_back(S->multi[i]); ch = true; } }
}
// is pc && cond satisfiable? returns model in m
static bool zcheck(Expr *cond, std::vector<u8> &m) {
    std::vector<Expr *> cs; SymSet sup; slice({cond}, cs, sup);
    u64 h = cond->hash; std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    for (auto c : cs) h = ExprCtx::mix(h, c->hash);
    for (int i = 0; i < (int)S->dom.size(); i++) if (sup.has(i)) for (auto w : S->dom[i].b) h = ExprCtx::mix(h, w + i);
    auto it = QCACHE.find(h);
    if (it != QCACHE.end()) { ST.cacheq++; if (!it->second.first) return false; for (int i = 0; i < (int)S->dom.size(); i++) if (sup.has(i)) m[i] = it->second.second[i]; return true; }
    double t = now();
    Z3_solver_reset(X.z, SOLVER);
    Z3_solver_assert(X.z, SOLVER, X.zB(cond));
    for (auto c : cs) Z3_solver_assert(X.z, SOLVER, X.zB(c));
    for (int i = 0; i < (int)S->dom.size(); i++) if (sup.has(i) && !S->dom[i].full()) Z3_solver_assert(X.z, SOLVER, X.zDom(i, S->dom[i]));
    Z3_lbool r = Z3_solver_check(X.z, SOLVER);
    ST.zq++; 
    if (now() - t > (getenv("LSX_SLOWT") ? atof(getenv("LSX_SLOWT")) : 1) && getenv("LSX_SLOWQ")) { FILE *q = fopen(getenv("LSX_SLOWQ"), "w"); fprintf(q, "%s\n", Z3_solver_to_string(X.z, SOLVER)); fclose(q); fprintf(stderr, "slow query %.1fs at %s\n", now() - t, stackStr().c_str()); }
    if (r == Z3_L_UNDEF) { ST.ztime += now() - t; incomplete("solver-unknown"); }
    bool sat = r == Z3_L_TRUE;
    if (sat) {
        ST.zsat++;
        Z3_model zm = Z3_solver_get_model(X.z, SOLVER); Z3_model_inc_ref(X.z, zm);
        for (int i = 0; i < (int)S->dom.size(); i++) if (sup.has(i)) {
            Z3_ast v; u64 u = 0;
            if (Z3_model_eval(X.z, zm, X.zV(X.sym(i)), true, &v)) { uint64_t q; if (Z3_get_numeral_uint64(X.z, v, &q)) u = q; }
            m[i] = (u8)u;
        }
        Z3_model_dec_ref(X.z, zm);
    } else ST.zunsat++;
    ST.ztime += now() - t;
    if (QCACHE.size() > 200000) QCACHE.clear();
    QCACHE[h] = {sat, m};
    return sat;
}
// plain solver query over everything, used to cross-check the byte-domain decisions
static bool zcheckRaw(Expr *cond) {
    SymSet sup; std::vector<Expr *> cs; slice({cond}, cs, sup);
    double t = now();
    Z3_solver_reset(X.z, SOLVER);
    Z3_solver_assert(X.z, SOLVER, X.zB(cond));
    for (auto c : cs) Z3_solver_assert(X.z, SOLVER, X.zB(c));
    for (int i = 0; i < (int)S->dom.size(); i++) if (sup.has(i) && !S->dom[i].full()) Z3_solver_assert(X.z, SOLVER, X.zDom(i, S->dom[i]));
    Z3_lbool r = Z3_solver_check(X.z, SOLVER); ST.zq++; ST.ztime += now() - t;
    if (r == Z3_L_TRUE) ST.zsat++; else ST.zunsat++;
    return r != Z3_L_FALSE;
}
static bool modelOk(const SymSet &touch, const u8 *m) {
    X.model = m; X.epoch++;
    for (auto c : S->multi) if (c->nsup && c->sup->inter(touch)) if (!X.ev(c)) return false;
    return true;
}
// satisfiability of pc && cond (cond symbolic). On success fills m with a model of pc && cond.
static bool sat(Expr *cond, std::vector<u8> &m) {
    if (cond->op == CONST) { m = S->model; return cond->c != 0; }
    m = S->model;
    if (X.eval(cond, m.data())) return true;
    if (cond->nsup == 1) {
        int s = cond->s0; Bits256 d = S->dom[s] & X.truth(cond);
        ST.domq++;
        if (d.empty()) { if (XCHECK) { XCHECKS++; if (zcheckRaw(cond)) XDISAGREE++; } return false; }
        if (!S->inMulti[s]) { m[s] = d.first(); if (XCHECK) { XCHECKS++; if (!zcheckRaw(cond)) XDISAGREE++; } return true; }
        // repair the current model
        SymSet t; t.clear(); t.add(s); int tries = 0;
        for (int i = 0; i < 256 && tries < 40; i++) if (d.get(i)) { tries++; m[s] = i; if (modelOk(t, m.data())) { ST.repair++; return true; } }
        m = S->model;
    }
    return zcheck(cond, m);
}
static void addCons(Expr *c) {
    if (c->op == CONST) return;
    if (c->op == AND && c->w == 1) { addCons(c->a); addCons(c->b); return; }
    if (c->nsup == 1) { S->dom[c->s0] = S->dom[c->s0] & X.truth(c); return; }
    // substitute-free: keep as multi
    for (auto x : S->multi) if (x == c) return;
    S->multi.push_back(c);
    for (int i = 0; i < (int)S->dom.size(); i++) if (c->sup->has(i)) S->inMulti[i] = 1;
}
static State *cloneState() { ST.forks++; return new State(*S); }
static bool known(Expr *c, bool &val) {
    if (c->op == CONST) { val = c->c; return true; }
    if (c->nsup == 1) {
        Bits256 &t = X.truth(c); Bits256 d = S->dom[c->s0] & t;
        if (d.empty()) { val = false; return true; }
        if (d == S->dom[c->s0]) { val = true; return true; }
        return false;
    }
    if (c->op == AND && c->w == 1) { bool a, b; bool ka = known(c->a, a); if (ka && !a) { val = false; return true; } bool kb = known(c->b, b); if (kb && !b) { val = false; return true; } if (ka && kb) { val = true; return true; } return false; }
    if (c->op == OR && c->w == 1) { bool a, b; bool ka = known(c->a, a); if (ka && a) { val = true; return true; } bool kb = known(c->b, b); if (kb && b) { val = true; return true; } if (ka && kb) { val = false; return true; } return false; }
    if (c->op == XOR && c->w == 1 && c->b->op == CONST) { if (known(c->a, val)) { val = !val; return true; } return false; }
    for (auto x : S->multi) if (x == c) { val = true; return true; }
    Expr *n = X.notb(c);
    for (auto x : S->multi) if (x == n) { val = false; return true; }
    return false;
}
// decide a boolean in the current state; when both outcomes are feasible the other one is queued
// (its state re-executes the current instruction).
static bool decide(Expr *c) {
    bool v; if (known(c, v)) { ST.domq++; return v; }
    bool cur = X.eval(c, S->model.data()) != 0;
    Expr *oth = cur ? X.notb(c) : c, *mine = cur ? c : X.notb(c);
    std::vector<u8> m;
    if (sat(oth, m)) {
        State *o = cloneState(); o->forks++;
        State *save = S; S = o; S->model = m; addCons(oth); S = save;
        WORK.emplace_back(o);
        S->forks++;
    }
    addCons(mine);
    return cur;
}
static bool decideSlot(const Slot &s) { return s.e ? decide(s.e) : (s.v & 1); }
static u128 concretize(const Slot &s, unsigned w) {
    if (!s.e) return s.v;
    for (int n = 0; n < 5000; n++) {
        u128 v = X.eval(s.e, S->model.data());
        if (decide(X.bin(EQ, s.e, X.cst(v, w)))) return v;
    }
    incomplete("concretize-limit");
}
static inline Expr *ex(const Slot &s, unsigned w) { return s.e ? s.e : X.cst(s.v, w); }
static inline Slot mk(Expr *e) { if (e->op == CONST) return {e->c, nullptr}; if (e->nsup == 1 && S->dom[e->s0].count() == 1) { u8 tmp[MAXSYM]; tmp[e->s0] = S->dom[e->s0].first(); return {X.eval(e, tmp), nullptr}; } return {0, e}; }

// ---------------------------------------------------------------- memory access
[[noreturn]] static void memFault(u64 a, const char *what) {
    recordFail("memory-fault", 0, std::string(what) + " at address " + std::to_string(a), S->model); endPath(2);
}
static inline Expr *byteE(const Page *p, unsigned o) { return p->sym ? p->sym[o] : nullptr; }
static Slot loadC(u64 a, unsigned bits) {
    unsigned nb = (bits + 7) / 8;
    Page *p = S->mem.rd(a); unsigned o = a & (PS - 1);
    if (!p) memFault(a, "load");
    if (o + nb <= PS && !p->nsym) { u128 v = 0; memcpy(&v, p->d + o, nb); return {v & maskw(bits), nullptr}; }
    Expr *acc = nullptr; u128 cv = 0; unsigned cn = 0; // low part accumulation, from low to high
    auto flush = [&]() { if (cn) { Expr *c = X.cst(cv, cn); acc = acc ? X.concat(c, acc) : c; cv = 0; cn = 0; } };
    bool any = false; u128 whole = 0;
    std::vector<Expr *> be(nb, nullptr); u8 cb[32];
    for (unsigned i = 0; i < nb; i++) {
        Page *q = S->mem.rd(a + i); if (!q) memFault(a + i, "load");
        unsigned oo = (a + i) & (PS - 1); be[i] = byteE(q, oo); cb[i] = q->d[oo]; if (be[i]) any = true; else whole |= (u128)cb[i] << (8 * i);
    }
    if (!any) return {whole & maskw(bits), nullptr};
    for (unsigned i = 0; i < nb; i++) {
        if (be[i]) { flush(); acc = acc ? X.concat(be[i], acc) : be[i]; }
        else { cv |= (u128)cb[i] << cn; cn += 8; }
    }
    flush();
    if (bits != nb * 8) acc = X.extract(acc, bits - 1, 0);
    return mk(acc);
}
static inline void setByte(u64 a, u8 v, Expr *e) {
    Page *p = S->mem.wr(a, false); if (!p) memFault(a, "store");
    unsigned o = a & (PS - 1);
    if (e && e->op == CONST) { v = (u8)e->c; e = nullptr; }
    if (p->sym) { if (p->sym[o]) p->nsym--; p->sym[o] = e; if (e) p->nsym++; }
    else if (e) { p->sym = (Expr **)calloc(PS, sizeof(Expr *)); p->sym[o] = e; p->nsym = 1; }
    p->d[o] = v;
}
static void storeC(u64 a, const Slot &s, unsigned bits) {
    unsigned nb = (bits + 7) / 8;
    if (!s.e) {
        Page *p = S->mem.wr(a, false); unsigned o = a & (PS - 1);
        if (!p) memFault(a, "store");
        if (o + nb <= PS && !p->nsym) { memcpy(p->d + o, &s.v, nb); return; }
        for (unsigned i = 0; i < nb; i++) setByte(a + i, (u8)(s.v >> (8 * i)), nullptr);
        return;
    }
    Expr *e = s.e; if (bits != nb * 8) e = X.zext(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) setByte(a + i, 0, X.extract(e, 8 * i + 7, 8 * i));
}
static void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    // fast page-chunk copy when no symbolic bytes are involved
    std::vector<u8> buf(n); std::vector<Expr *> sy; bool any = false;
    for (u64 i = 0; i < n;) {
        Page *p = S->mem.rd(s + i); if (!p) memFault(s + i, "memcpy-read"); unsigned o = (s + i) & (PS - 1); u64 k = std::min<u64>(n - i, PS - o);
        memcpy(&buf[i], p->d + o, k);
        if (p->nsym) { for (u64 j = 0; j < k; j++) if (p->sym[o + j]) { if (!any) { any = true; sy.assign(n, nullptr); } sy[i + j] = p->sym[o + j]; } }
        i += k;
    }
    for (u64 i = 0; i < n;) {
        Page *p = S->mem.wr(d + i, false); if (!p) memFault(d + i, "memcpy-write"); unsigned o = (d + i) & (PS - 1); u64 k = std::min<u64>(n - i, PS - o);
        if (!p->nsym && !any) memcpy(p->d + o, &buf[i], k);
        else for (u64 j = 0; j < k; j++) setByte(d + i + j, buf[i + j], any ? sy[i + j] : nullptr);
        i += k;
    }
}
// table lookup at base + f where f has few significant bits: a multiplexer over the bits of f
static Expr *mux(Expr *f, int bit, int low, std::vector<Expr *> &v, size_t lo, size_t n) {
    bool same = true; for (size_t i = 1; i < n && same; i++) same = v[lo + i] == v[lo];
    if (same || bit < low) return v[lo];
    Expr *h = mux(f, bit - 1, low, v, lo + n / 2, n / 2), *l = mux(f, bit - 1, low, v, lo, n / 2);
    return X.ite(X.extract(f, bit, bit), h, l);
}
static bool tableLoad(Expr *e, unsigned bits, Slot &r) {
    u64 base = 0; Expr *f = e;
    if (f->op == ADD && f->b->op == CONST) { base = (u64)f->b->c; f = f->a; }
    int top = 64 - (int)ExprCtx::topzeros(f), low = 0;
    if (top < 1 || top > 16) return false;
    { Expr *g = f; if (g->op == ZEXT) g = g->a; if (g->op == CONCAT && g->b->op == CONST && g->b->c == 0) low = g->b->w; }
    if (top - low > 10) return false;
    size_t n = (size_t)1 << (top - low); unsigned nb = (bits + 7) / 8; std::vector<Expr *> v(n, nullptr); size_t bad = n; int nsymb = 0;
    for (size_t i = 0; i < n; i++) {
        u64 a = base + ((u64)i << low);
        if (!S->mem.rd(a) || !S->mem.rd(a + nb - 1)) { bad = i; break; }
        Slot q = loadC(a, bits); if (q.e) nsymb++; v[i] = ex(q, bits);
    }
    if (nsymb > 64 || bad == 0) return false;
    if (bad < n) {
        std::vector<u8> m; bool val; Expr *c = X.bin(ULE, X.cst((u128)bad << low, 64), f);
        if (known(c, val) ? val : sat(c, m)) return false;
        for (size_t i = bad; i < n; i++) v[i] = v[bad - 1];
    }
    r = mk(mux(f, top - 1, low, v, 0, n));
    return true;
}
// symbolic address read
static Slot loadS(const Slot &addr, unsigned bits) {
    Expr *e = addr.e;
    if (e->nsup == 1) {
        int s = e->s0; Bits256 d = S->dom[s]; u8 tmp[MAXSYM]; std::map<u64, Bits256> groups; // address -> values
        for (int i = 0; i < 256; i++) if (d.get(i)) { tmp[s] = i; u64 a = (u64)X.eval(e, tmp); auto it = groups.find(a); if (it == groups.end()) it = groups.emplace(a, Bits256::none()).first; it->second.set(i); }
        bool ok = true; for (auto &g : groups) if (!S->mem.rd(g.first) || !S->mem.rd(g.first + (bits + 7) / 8 - 1)) ok = false;
        if (ok) {
            std::vector<std::pair<Slot, Bits256>> vals;
            for (auto &g : groups) { Slot v = loadC(g.first, bits); bool f = false; for (auto &q : vals) if (q.first.e == v.e && q.first.v == v.v) { q.second = q.second | g.second; f = true; break; } if (!f) vals.push_back({v, g.second}); }
            std::sort(vals.begin(), vals.end(), [](auto &a, auto &b) { return a.second.count() > b.second.count(); });
            Expr *r = ex(vals[0].first, bits);
            for (size_t i = 1; i < vals.size(); i++) r = X.ite(X.fromBits(s, vals[i].second), ex(vals[i].first, bits), r);
            return mk(r);
        }
    }
    Slot r; if (e->nsup > 1 && tableLoad(e, bits, r)) return r;
    u64 a = (u64)concretize(addr, 64);
    return loadC(a, bits);
}

// ---------------------------------------------------------------- heap
static int sizeClass(u64 n) { if (n <= 16) return 0; int c = 0; u64 s = 16; while (s < n) { s <<= 1; c++; } return c; }
static u64 heapAlloc(u64 n, u64 align) {
    if (n > (64u << 20)) incomplete("huge-alloc");
    int c = sizeClass(n); u64 sz = (u64)16 << c;
    if (S->freeHead.empty()) S->freeHead.assign(32, 0);
    if (align <= 16 && S->freeHead[c]) { u64 p = S->freeHead[c]; S->freeHead[c] = (u64)loadC(p, 64).v; return p; }
    u64 al = std::max<u64>(align, 16); u64 p = S->brk + 16; p = (p + al - 1) / al * al;
    if (p + sz + 16 > HEAPEND) incomplete("heap-exhausted");
    S->mem.map(p - 16, sz + 16);
    storeC(p - 16, {(u128)c, nullptr}, 64); storeC(p - 8, {(u128)0, nullptr}, 64);
    S->brk = p + sz; return p;
}
static void heapFree(u64 p) { if (!p) return; int c = (int)loadC(p - 16, 64).v; if (c < 0 || c > 31) { recordFail("bad-free", 0, "free of a non-heap pointer", S->model); endPath(2); } if (S->freeHead.empty()) S->freeHead.assign(32, 0); if (c > 20) return; storeC(p, {S->freeHead[c], nullptr}, 64); S->freeHead[c] = p; }
static u64 heapSize(u64 p) { int c = (int)loadC(p - 16, 64).v; return (u64)16 << c; }

// ---------------------------------------------------------------- interpreter helpers
static inline Slot &R(Frame &f, int op) { return op >= 0 ? S->regs[f.base + op] : f.f->consts[~op]; }

static Slot binS(EOp op, unsigned w, const Slot &a, const Slot &b) {
    if (!a.e && !b.e) {
        if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && b.v == 0) { recordFail("div-by-zero", 0, "", S->model); endPath(2); }
        return {ExprCtx::apply(op, w, w, a.v, b.v), nullptr};
    }
    if ((op == MUL || op == UDIV || op == UREM) && a.e && b.e && w >= 32) { /* symbolic x symbolic: allowed, solver decides */ }
    return mk(X.bin(op, ex(a, w), ex(b, w)));
}
static Slot icmpS(EOp op, unsigned w, const Slot &a, const Slot &b) {
    if (!a.e && !b.e) return {ExprCtx::apply(op, 1, w, a.v, b.v), nullptr};
    return mk(X.bin(op, ex(a, w), ex(b, w)));
}
static inline Slot notS(const Slot &s) { if (!s.e) return {(u128)!(s.v & 1), nullptr}; return mk(X.notb(s.e)); }
static Slot iteS(const Slot &c, const Slot &a, const Slot &b, unsigned w) { if (!c.e) return c.v & 1 ? a : b; if (!a.e && !b.e && a.v == b.v) return a; return mk(X.ite(c.e, ex(a, w), ex(b, w))); }

static void needConc(const Slot &s, const char *w) { if (s.e) incomplete(std::string("symbolic-") + w); }

static void takeEdge(Frame &f, int ei) {
    Edge &e = f.f->edges[ei];
    if (e.moves.size() == 1) { auto &m = e.moves[0]; for (int k = 0; k < m[2]; k++) S->regs[f.base + m[0] + k] = R(f, m[1] >= 0 ? m[1] + k : m[1] - k); }
    else if (!e.moves.empty()) {
        static std::vector<Slot> tmp; tmp.clear();
        for (auto &m : e.moves) for (int k = 0; k < m[2]; k++) tmp.push_back(R(f, m[1] >= 0 ? m[1] + k : m[1] - k));
        size_t i = 0; for (auto &m : e.moves) for (int k = 0; k < m[2]; k++) S->regs[f.base + m[0] + k] = tmp[i++];
    }
    f.pc = e.target;
}
static Func *funcAt(u64 a) { if (a < Module::CODE) return nullptr; u64 i = (a - Module::CODE) / 16; if ((a - Module::CODE) % 16 || i >= M.funcs.size()) return nullptr; return M.funcs[i]; }

static void pushFrame(Func *f, const Slot *args, int nargs, int retDst, int retEdge) {
    M.decode(f);
    f->entered = true;
    if (COVBITS.size() < M.covs.size()) COVBITS.resize(M.covs.size() + 1024, 0);
    if (S->fr.size() > 4000) { recordFail("stack-overflow", 0, "recursion depth > 4000", S->model); endPath(2); }
    Frame n; n.f = f; n.pc = 0; n.base = S->regs.size(); n.sp = S->sp; n.retDst = retDst; n.retEdge = retEdge;
    S->regs.resize(n.base + f->nregs, Slot{0, nullptr});
    // parameters occupy the first slots in order
    for (int i = 0; i < nargs && i < f->nparamSlots; i++) S->regs[n.base + i] = args[i];
    S->fr.push_back(n);
}
static std::string readStr(u64 p, u64 n) { std::string r; for (u64 i = 0; i < n && i < 400; i++) { Slot s = loadC(p + i, 8); r += s.e ? '?' : (char)s.v; } return r; }

// special function ids
enum Sp { SP_NONE = 0, SP_PANIC = 1, SP_EXT = 2 };
static void classify(Func *f) {
    if (f->special) return;
    f->special = -1;
    const std::string &n = f->name;
    if (n.find("4core9panicking") != std::string::npos || n.find("rust_begin_unwind") != std::string::npos || n.find("rust_panic") != std::string::npos || n.find("3std9panicking") != std::string::npos || n.find("4core6option13unwrap_failed") != std::string::npos || n.find("4core6option13expect_failed") != std::string::npos || n.find("4core6result13unwrap_failed") != std::string::npos || n.find("5slice5index16slice_") != std::string::npos || n.find("slice_error_fail") != std::string::npos || n.find("5alloc7raw_vec17capacity_overflow") != std::string::npos || n.find("5alloc7raw_vec12handle_error") != std::string::npos || n.find("handle_alloc_error") != std::string::npos || n.find("panic_already_borrowed") != std::string::npos || n.find("panic_already_mutably_borrowed") != std::string::npos || n.find("4core4cell22panic") != std::string::npos || n.find("4core5slice5index26slice") != std::string::npos || n.find("panic_in_cleanup") != std::string::npos) f->special = SP_PANIC;
    if (n.find("3std9panicking") != std::string::npos && (n.find("panic_count") != std::string::npos || n.find("panicking17h") == std::string::npos) && n.find("begin_panic") == std::string::npos && n.find("rust_panic") == std::string::npos && n.find("default_hook") == std::string::npos && n.find("panic_with_hook") == std::string::npos) { if (f->special == SP_PANIC && n.find("4core9panicking") == std::string::npos && n.find("rust_begin_unwind") == std::string::npos) f->special = -1; }
    if (!f->defined) f->special = SP_EXT;
}

static bool hasSymRange(u64 a, u64 n) { for (u64 i = 0; i < n; i++) { Page *p = S->mem.rd(a + i); if (!p) memFault(a + i, "read"); if (byteE(p, (a + i) & (PS - 1))) return true; } return false; }

static void newSyms(u64 p, u64 n) {
    for (u64 i = 0; i < n; i++) {
        int s = (int)S->dom.size(); if (s >= MAXSYM) incomplete("too-many-symbols");
        S->dom.push_back(Bits256::all()); S->inMulti.push_back(0);
        S->model.push_back(0);
        setByte(p + i, 0, X.sym(s));
    }
}
static void doAssume(const Slot &c) {
    if (!c.e) { if (!(c.v & 1)) endPath(1); return; }
    bool v; if (known(c.e, v)) { if (!v) endPath(1); return; }
    std::vector<u8> m; if (!sat(c.e, m)) endPath(1);
    S->model = m; addCons(c.e);
}
static void doAssert(const Slot &c, u64 id) {
    ASSERTIDS[id]++; S->asserts++;
    if (!c.e) { ST.assertsConc++; if (!(c.v & 1)) { recordFail("assert", id, "", S->model); endPath(2); } return; }
    ST.assertsSym++;
    bool v; if (known(c.e, v)) { if (!v) { recordFail("assert", id, "", S->model); endPath(2); } return; }
    std::vector<u8> m; Expr *n = X.notb(c.e);
    if (sat(n, m)) {
        recordFail("assert", id, "", m);
        std::vector<u8> m2; if (!sat(c.e, m2)) endPath(2); S->model = m2; addCons(c.e);
    }
}
static void addCover(u64 id, const std::vector<u8> &m) { if (!COVERS.count(id)) COVERS[id] = m; }

// ---------------------------------------------------------------- files
static void errnoCell() { if (!S->lastErrno) { S->lastErrno = heapAlloc(16, 16); storeC(S->lastErrno, {0, nullptr}, 32); } }
static void setErr(int e) { errnoCell(); storeC(S->lastErrno, {(u128)e, nullptr}, 32); }
static FsModel &fsR() { if (!S->fs) S->fs = std::make_shared<FsModel>(); return *S->fs; }
static FsModel &fsW() { if (!S->fs) S->fs = std::make_shared<FsModel>(); else if (S->fs.use_count() > 1) { auto n = std::make_shared<FsModel>(*S->fs); for (auto &f : n->fds) f.second = std::make_shared<OpenFile>(*f.second); S->fs = n; } return *S->fs; }
// Paths are strings in which a symbolic byte is written as \x01 and the id of its expression, so
// that names of files may be symbolic: equal strings are equal names, and different ones are
// compared by the solver. There are no links.
static std::string encByte(const Slot &b) { if (!b.e) { if ((u8)b.v == 1) incomplete("byte 1 in a path"); return std::string(1, (char)(u8)b.v); } char t[16]; snprintf(t, sizeof t, "\x01%08x", (unsigned)b.e->id); return t; }
static bool hasSym(const std::string &p) { return p.find('\x01') != std::string::npos; }
static std::vector<Slot> decPath(const std::string &p) {
    std::vector<Slot> v; for (size_t i = 0; i < p.size(); i++) { if (p[i] != '\x01') { v.push_back({(u8)p[i], nullptr}); continue; } v.push_back(mk(X.all[strtoul(p.substr(i + 1, 8).c_str(), nullptr, 16)])); i += 8; }
    return v;
}
static void putPath(u64 p, const std::vector<Slot> &v) { for (size_t i = 0; i <= v.size(); i++) { if (i < v.size()) setByte(p + i, (u8)v[i].v, v[i].e); else setByte(p + i, 0, nullptr); } }
static std::string cpath(u64 p) {
    std::string r; for (u64 i = 0; i < 4096; i++) { Slot b = loadC(p + i, 8); if (b.e) b = mk(b.e);
        if (b.e) { if (decide(X.bin(EQ, b.e, X.cst(0, 8)))) break; if (decide(X.bin(EQ, b.e, X.cst('/', 8)))) { r += '/'; continue; } r += encByte(b); continue; }
        if (!(u8)b.v) break; r += encByte(b); }
    return r;
}
// the name a component is listed under in a directory; false when there is none. Forks on symbolic names.
static bool child(const std::string &cur, const std::string &c, const std::vector<Slot> &cd, std::string &key) {
    std::string pre = cur == "/" ? "/" : cur + "/"; auto &names = fsR().names;
    if (names.count(pre + c)) { key = pre + c; return true; }
    bool cs = hasSym(c);
    for (auto it = names.lower_bound(pre); it != names.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
        std::string n = it->first.substr(pre.size()); if (n.empty() || n.find('/') != std::string::npos) continue;
        if (!cs && !hasSym(n)) continue;
        auto nd = decPath(n); if (nd.size() != cd.size()) continue;
        Expr *eq = X.cst(1, 1); for (size_t i = 0; i < nd.size(); i++) eq = X.bin(AND, eq, X.bin(EQ, ex(nd[i], 8), ex(cd[i], 8)));
        if (eq->op == CONST ? eq->c : decide(eq)) { key = it->first; return true; }
    }
    return false;
}
// resolves a path to a name of the model ("" and err when a component is missing or no directory); dots are resolved
static std::string resolveP(const std::string &p, int &err, bool lastMayMiss = false, const std::string *base = nullptr) {
    FsModel &f = fsR(); err = 0; if (p.empty()) { err = 2; return ""; }
    std::string cur = p[0] == '/' ? "/" : base ? *base : f.cwd; size_t i = 0; bool missing = false;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') i++;
        size_t j = i; while (j < p.size() && p[j] != '/') j++;
        if (j == i) break;
        std::string c = p.substr(i, j - i); bool last = p.find_first_not_of('/', j) == std::string::npos; bool slash = j < p.size();
        if (missing) { err = 2; return ""; }
        auto it = f.names.find(cur); if (it == f.names.end()) { err = 2; return ""; }
        if (!f.inodes[it->second].dir) { err = 20; return ""; }
        auto cd = decPath(c); if (cd.size() > 255) { err = 36; return ""; }
        int dots = 0;
        if (cd.size() <= 2) { Expr *e = X.cst(1, 1); for (auto &b : cd) e = X.bin(AND, e, X.bin(EQ, ex(b, 8), X.cst('.', 8))); if (e->op == CONST ? e->c : decide(e)) dots = (int)cd.size(); }
        if (dots == 1) { i = j; continue; }
        if (dots == 2) { size_t k = cur.rfind('/'); cur = k == 0 ? "/" : cur.substr(0, k); i = j; continue; }
        std::string key;
        if (!child(cur, c, cd, key)) { if (!last || !lastMayMiss) { err = 2; return ""; } missing = true; cur = (cur == "/" ? "/" : cur + "/") + c; }
        else { cur = key; if (last && slash && !f.inodes[f.names.find(key)->second].dir) { err = 20; return ""; } }
        i = j;
    }
    return cur;
}
static void putStat(u64 p, int ino) {
    Inode &n = fsR().inodes[ino]; for (int i = 0; i < 144; i++) setByte(p + i, 0, nullptr);
    storeC(p, {1, nullptr}, 64); storeC(p + 8, {(u128)ino + 1, nullptr}, 64); storeC(p + 16, {1, nullptr}, 64);
    storeC(p + 24, {(u128)(n.dir ? 040755 : 0100644), nullptr}, 32); storeC(p + 48, {n.dir ? 4096 : n.d.size(), nullptr}, 64); storeC(p + 56, {4096, nullptr}, 64); storeC(p + 88, {n.mtime, nullptr}, 64);
}
static bool fsCall(const std::string &n, std::vector<Slot> &a, Slot &ret) {
    static const std::set<std::string> names = {"open64", "open", "read", "write", "close", "fstat64", "stat64", "lstat64", "statx", "lseek64", "opendir", "readdir64", "closedir", "dirfd", "mkdir", "unlink", "rmdir", "rename", "realpath", "getcwd", "chdir", "fcntl", "fcntl64", "ioctl", "dup", "dup2", "access", "readlink", "fsync", "fdatasync", "ftruncate64", "poll", "chmod", "fchmod", "isatty", "pread64", "writev", "readv", "copy_file_range", "sendfile64", "fdopendir", "umask", "openat64", "openat", "unlinkat", "fstatat64", "newfstatat"};
    if (!names.count(n)) return false;
    struct Trace { const std::string &n; Slot &r; ~Trace() { if (getenv("LSX_FS")) fprintf(stderr, "fs %s -> %lld\n", n.c_str(), (long long)(int64_t)r.v); } } trace{n, ret};
    auto C = [&](int i) -> u64 { return (u64)concretize(a[i], 64); };
    auto fail = [&](int e, unsigned w = 32) { setErr(e); ret = {maskw(w), nullptr}; return true; };
    auto fdOf = [&](int fd) -> OpenFile * { auto &m = fsR().fds; auto it = m.find(fd); return it == m.end() ? nullptr : it->second.get(); };
    auto newFd = [&](std::shared_ptr<OpenFile> o) { auto &m = fsW().fds; int fd = 3; while (m.count(fd)) fd++; m[fd] = o; return fd; };
    int err;
    bool badFd = false; std::string baseS;
    auto baseOf = [&](int i) -> const std::string * { int fd = (int)C(i); if (fd == -100) return nullptr; OpenFile *o = fdOf(fd); if (!o) { badFd = true; return nullptr; } baseS = o->path; return &baseS; };
    if (n == "open64" || n == "open" || n == "openat64" || n == "openat") {
        int at = n.compare(0, 6, "openat") == 0; const std::string *base = at ? baseOf(0) : nullptr; if (badFd) return fail(9);
        std::string p = cpath(C(at)); u64 fl = C(at + 1); bool cr = fl & 0100; int acc = fl & 3;
        std::string r = resolveP(p, err, cr, base); if (err) return fail(err);
        auto it = fsR().names.find(r);
        if (it == fsR().names.end()) { FsModel &f = fsW(); Inode i; i.mtime = ++f.clock; f.inodes.push_back(i); f.names[r] = (int)f.inodes.size() - 1; }
        else {
            if ((fl & 0300) == 0300) return fail(17);
            bool dir = fsR().inodes[it->second].dir; if (dir && (acc || cr)) return fail(21); if (!dir && (fl & 0200000)) return fail(20);
            if ((fl & 01000) && acc && !dir) { FsModel &f = fsW(); Inode &i = f.inodes[f.names[r]]; i.d.clear(); i.e.clear(); i.mtime = ++f.clock; }
        }
        auto o = std::make_shared<OpenFile>(); o->ino = fsR().names[r]; o->off = 0; o->append = fl & 02000; o->dirh = false; o->path = r;
        ret = {(u128)newFd(o), nullptr}; return true;
    }
    if (n == "read" || n == "pread64") {
        int fd = (int)C(0); u64 p = C(1), k = C(2); OpenFile *o = fdOf(fd);
        if (!o) { if (fd == 0) { ret = {0, nullptr}; return true; } return fail(9, 64); }
        Inode &i = fsR().inodes[o->ino]; if (i.dir) return fail(21, 64);
        u64 off = n == "pread64" ? C(3) : o->off; u64 av = off < i.d.size() ? std::min<u64>(k, i.d.size() - off) : 0;
        for (u64 x = 0; x < av; x++) setByte(p + x, i.d[off + x], i.e[off + x]);
        if (n == "read" && av) { fsW(); fdOf(fd)->off = off + av; }
        ret = {av, nullptr}; return true;
    }
    if (n == "write" || n == "writev") {
        int fd = (int)C(0); std::vector<std::pair<u64, u64>> v; u64 tot = 0;
        if (n == "write") v.push_back({C(1), C(2)}); else { u64 iv = C(1), c = C(2); for (u64 i = 0; i < c; i++) v.push_back({(u64)concretize(loadC(iv + 16 * i, 64), 64), (u64)concretize(loadC(iv + 16 * i + 8, 64), 64)}); }
        for (auto &x : v) tot += x.second;
        if (!fdOf(fd)) { if (fd == 1 || fd == 2) { ret = {tot, nullptr}; return true; } return fail(9, 64); }
        FsModel &f = fsW(); OpenFile *o = fdOf(fd); Inode &i = f.inodes[o->ino]; if (o->append) o->off = i.d.size();
        for (auto &x : v) for (u64 k = 0; k < x.second; k++) { Slot b = loadC(x.first + k, 8); if (o->off >= i.d.size()) { i.d.resize(o->off + 1, 0); i.e.resize(o->off + 1, nullptr); } i.d[o->off] = (u8)b.v; i.e[o->off] = b.e; o->off++; }
        i.mtime = ++f.clock; ret = {tot, nullptr}; return true;
    }
    if (n == "close") { int fd = (int)C(0); fsW().fds.erase(fd); ret = {0, nullptr}; return true; }
    if (n == "dup" || n == "dup2") { int fd = (int)C(0); if (!fdOf(fd)) { if (fd > 2) return fail(9); if (n == "dup") { ret = {(u128)(1000 + fd), nullptr}; return true; } }
        if (n == "dup") { ret = {(u128)newFd(fsW().fds[fd]), nullptr}; return true; }
        int to = (int)C(1); FsModel &f = fsW(); if (fd >= 1000) f.fds.erase(to); else if (!f.fds.count(fd)) f.fds.erase(to); else f.fds[to] = f.fds[fd]; ret = {(u128)to, nullptr}; return true; }
    if (n == "fstat64") { int fd = (int)C(0); OpenFile *o = fdOf(fd); if (!o) return fail(9); putStat(C(1), o->ino); ret = {0, nullptr}; return true; }
    if (n == "stat64" || n == "lstat64") { std::string r = resolveP(cpath(C(0)), err); if (err) return fail(err); putStat(C(1), fsR().names[r]); ret = {0, nullptr}; return true; }
    if (n == "fstatat64" || n == "newfstatat") { const std::string *b = baseOf(0); if (badFd) return fail(9); std::string r = resolveP(cpath(C(1)), err, false, b); if (err) return fail(err); putStat(C(2), fsR().names[r]); ret = {0, nullptr}; return true; }
    if (n == "access") { resolveP(cpath(C(0)), err); if (err) return fail(err); ret = {0, nullptr}; return true; }
    if (n == "readlink") { resolveP(cpath(C(0)), err); return fail(err ? err : 22, 64); }
    if (n == "statx") return fail(38);
    if (n == "lseek64") { int fd = (int)C(0); OpenFile *o = fdOf(fd); if (!o) return fail(9, 64); int64_t off = (int64_t)C(1); u64 wh = C(2); fsW(); o = fdOf(fd); int64_t b = wh == 0 ? 0 : wh == 1 ? (int64_t)o->off : (int64_t)fsR().inodes[o->ino].d.size(); if (b + off < 0) return fail(22, 64); o->off = b + off; ret = {o->off, nullptr}; return true; }
    if (n == "ftruncate64") { int fd = (int)C(0); u64 k = C(1); FsModel &f = fsW(); OpenFile *o = fdOf(fd); if (!o) return fail(9); Inode &i = f.inodes[o->ino]; i.d.resize(k, 0); i.e.resize(k, nullptr); ret = {0, nullptr}; return true; }
    if (n == "fdopendir") { int fd = (int)C(0); OpenFile *o = fdOf(fd); if (!o || !fsR().inodes[o->ino].dir) { setErr(20); ret = {0, nullptr}; return true; }
        fsW(); o = fdOf(fd); o->dirh = true; o->listed = false; o->off = 0; u64 h = heapAlloc(320, 16); for (int i = 0; i < 320; i++) setByte(h + i, 0, nullptr); storeC(h, {(u128)fd, nullptr}, 64); ret = {h, nullptr}; return true; }
    if (n == "opendir") { std::string r = resolveP(cpath(C(0)), err); if (!err && !fsR().inodes[fsR().names[r]].dir) err = 20; if (err) { setErr(err); ret = {0, nullptr}; return true; }
        auto o = std::make_shared<OpenFile>(); o->ino = fsR().names[r]; o->off = 0; o->append = false; o->dirh = true; o->path = r; int fd = newFd(o);
        u64 h = heapAlloc(320, 16); for (int i = 0; i < 320; i++) setByte(h + i, 0, nullptr); storeC(h, {(u128)fd, nullptr}, 64); ret = {h, nullptr}; return true; }
    if (n == "readdir64") { u64 h = C(0); int fd = (int)loadC(h, 64).v; OpenFile *o = fdOf(fd); if (!o) { setErr(9); ret = {0, nullptr}; return true; }
        FsModel &f = fsW(); o = fdOf(fd); std::string pre = o->path == "/" ? "/" : o->path + "/"; auto &v = o->list;
        if (!o->listed) { o->listed = true; v.clear(); v.push_back({".", o->ino}); v.push_back({"..", o->ino});
        for (auto it = f.names.lower_bound(pre); it != f.names.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) if (it->first.size() > pre.size() && it->first.find('/', pre.size()) == std::string::npos) v.push_back({it->first.substr(pre.size()), it->second}); }
        if (o->off >= v.size()) { ret = {0, nullptr}; return true; }
        auto &x = v[o->off++]; u64 q = h + 16; storeC(q, {(u128)x.second + 1, nullptr}, 64); storeC(q + 8, {o->off, nullptr}, 64); storeC(q + 16, {280, nullptr}, 16); storeC(q + 18, {(u128)(f.inodes[x.second].dir ? 4 : 8), nullptr}, 8);
        putPath(q + 19, decPath(x.first));
        ret = {q, nullptr}; return true; }
    if (n == "closedir") { u64 h = C(0); fsW().fds.erase((int)loadC(h, 64).v); heapFree(h); ret = {0, nullptr}; return true; }
    if (n == "dirfd") { ret = loadC(C(0), 64); ret.v &= maskw(32); return true; }
    if (n == "mkdir") { std::string r = resolveP(cpath(C(0)), err, true); if (err) return fail(err); if (fsR().names.count(r)) return fail(17); FsModel &f = fsW(); Inode i; i.dir = true; f.inodes.push_back(i); f.names[r] = (int)f.inodes.size() - 1; ret = {0, nullptr}; return true; }
    if (n == "unlink" || n == "rmdir" || n == "unlinkat") { bool at = n == "unlinkat"; const std::string *b = at ? baseOf(0) : nullptr; if (badFd) return fail(9); bool wantDir = at ? (C(2) & 0x200) != 0 : n == "rmdir";
        std::string r = resolveP(cpath(C(at)), err, false, b); if (err) return fail(err); bool d = fsR().inodes[fsR().names[r]].dir; if (!wantDir && d) return fail(21); if (wantDir && !d) return fail(20);
        if (d) { auto it = fsR().names.lower_bound(r + "/"); if (it != fsR().names.end() && it->first.compare(0, r.size() + 1, r + "/") == 0) return fail(39); } fsW().names.erase(r); ret = {0, nullptr}; return true; }
    if (n == "rename") { std::string r = resolveP(cpath(C(0)), err); if (err) return fail(err); std::string q = resolveP(cpath(C(1)), err, true); if (err) return fail(err); if (fsR().inodes[fsR().names[r]].dir) incomplete("rename of a directory"); FsModel &f = fsW(); f.names[q] = f.names[r]; if (q != r) f.names.erase(r); ret = {0, nullptr}; return true; }
    if (n == "realpath") { std::string r = resolveP(cpath(C(0)), err); if (err) { setErr(err); ret = {0, nullptr}; return true; } auto rd = decPath(r); u64 p = C(1); if (!p) p = heapAlloc(rd.size() + 1, 16); putPath(p, rd); ret = {p, nullptr}; return true; }
    if (n == "getcwd") { std::string r = fsR().cwd; u64 p = C(0), k = C(1); auto rd = decPath(r); if (rd.size() + 1 > k) { setErr(34); ret = {0, nullptr}; return true; } putPath(p, rd); ret = {p, nullptr}; return true; }
    if (n == "chdir") { std::string r = resolveP(cpath(C(0)), err); if (!err && !fsR().inodes[fsR().names[r]].dir) err = 20; if (err) return fail(err); fsW().cwd = r; ret = {0, nullptr}; return true; }
    if (n == "fcntl" || n == "fcntl64" || n == "ioctl" || n == "fsync" || n == "fdatasync" || n == "poll" || n == "chmod" || n == "fchmod" || n == "umask") { ret = {0, nullptr}; return true; }
    if (n == "isatty") { ret = {0, nullptr}; return true; }
    if (n == "copy_file_range" || n == "sendfile64") return fail(38, 64);
    return false;
}

static u64 vclock = 1700000000;

static bool extCall(Func *fn, CallInfo &ci, Frame &f, std::vector<Slot> &a, Slot &ret) {
    const std::string &n = fn->name;
    auto C = [&](int i) -> u64 { return (u64)concretize(a[i], 64); };
    ret = {0, nullptr};
    if (n == "sym_bytes") { u64 p = C(0), k = C(1); newSyms(p, k); return true; }
    if (n == "sym_assume") { doAssume(a[0]); return true; }
    if (n == "sym_assert") { u64 id = C(1); doAssert(a[0], id); return true; }
    if (n == "sym_cover") {
        u64 id = C(1);
        if (!a[0].e) { if (a[0].v & 1) { addCover(id, S->model); S->covers.insert(id); } }
        else if (!COVERS.count(id)) { std::vector<u8> m; if (sat(a[0].e, m)) addCover(id, m); }
        return true;
    }
    if (n == "sym_param") { u64 i = C(0); ret = {i < PARAMS.size() ? PARAMS[i] : 0, nullptr}; return true; }
    if (n == "sym_concretize") { ret = {concretize(a[0], 64), nullptr}; return true; }
    if (n == "sym_observe") { S->obs.push_back({a[0].e, (u64)a[0].v}); return true; }
    if (n == "sym_is_symbolic") { ret = {1, nullptr}; return true; }
    if (n == "sym_print") { u64 p = C(0), k = C(1); if (getenv("LSX_PRINT")) fprintf(stderr, "[sym_print] %s\n", readStr(p, k).c_str()); return true; }
    if (n == "malloc") { u64 s = C(0); ret = {heapAlloc(s, 16), nullptr}; return true; }
    if (n == "calloc") { u64 s = C(0), t = C(1); u64 p = heapAlloc(s * t, 16); for (u64 i = 0; i < s * t; i++) setByte(p + i, 0, nullptr); ret = {p, nullptr}; return true; }
    if (n == "realloc") { u64 p = C(0), s = C(1); if (!p) { ret = {heapAlloc(s, 16), nullptr}; return true; } u64 old = heapSize(p); if (s <= old) { ret = {p, nullptr}; return true; } u64 q = heapAlloc(s, 16); copyMem(q, p, std::min(old, s)); heapFree(p); ret = {q, nullptr}; return true; }
    if (n == "free") { heapFree(C(0)); return true; }
    if (n == "posix_memalign") { u64 pp = C(0), al = C(1), s = C(2); u64 p = heapAlloc(s, al); storeC(pp, {p, nullptr}, 64); return true; }
    if (n == "aligned_alloc") { u64 al = C(0), s = C(1); ret = {heapAlloc(s, al), nullptr}; return true; }
    if (n == "memcpy" || n == "memmove") { u64 d = C(0), s = C(1), k = C(2); copyMem(d, s, k); ret = {d, nullptr}; return true; }
    if (n == "memset") { u64 d = C(0), k = C(2); Slot b = a[1]; if (b.e) b = mk(X.extract(b.e, 7, 0)); for (u64 i = 0; i < k; i++) setByte(d + i, (u8)b.v, b.e); ret = {d, nullptr}; return true; }
    if (n == "memcmp" || n == "bcmp") {
        u64 p = C(0), q = C(1), k = C(2);
        bool sym = hasSymRange(p, k) || hasSymRange(q, k);
        if (!sym) { int r = 0; for (u64 i = 0; i < k && !r; i++) { u8 x = (u8)loadC(p + i, 8).v, y = (u8)loadC(q + i, 8).v; if (x != y) r = x < y ? -1 : 1; } ret = {(u128)(u32)r, nullptr}; return true; }
        if (n == "bcmp") { Expr *eq = X.cst(1, 1); for (u64 i = 0; i < k; i++) eq = X.bin(AND, eq, X.bin(EQ, ex(loadC(p + i, 8), 8), ex(loadC(q + i, 8), 8))); ret = mk(X.ite(eq, X.cst(0, 32), X.cst(1, 32))); return true; }
        Expr *r = X.cst(0, 32);
        for (u64 i = k; i-- > 0;) { Expr *x = ex(loadC(p + i, 8), 8), *y = ex(loadC(q + i, 8), 8); r = X.ite(X.bin(EQ, x, y), r, X.ite(X.bin(ULT, x, y), X.cst(0xffffffff, 32), X.cst(1, 32))); }
        ret = mk(r); return true;
    }
    if (n == "strlen") { u64 p = C(0); u64 k = 0; for (;; k++) { Slot s = loadC(p + k, 8); if (s.e) { if (decide(X.bin(EQ, s.e, X.cst(0, 8)))) break; } else if (s.v == 0) break; } ret = {k, nullptr}; return true; }
    if (n == "memchr") { u64 p = C(0); Slot c = a[1].e ? mk(X.extract(a[1].e, 7, 0)) : Slot{a[1].v & 0xff, nullptr}; u64 k = C(2); for (u64 i = 0; i < k; i++) if (decideSlot(icmpS(EQ, 8, loadC(p + i, 8), c))) { ret = {p + i, nullptr}; return true; } return true; }
    if (n == "memrchr") { u64 p = C(0); Slot c = a[1].e ? mk(X.extract(a[1].e, 7, 0)) : Slot{a[1].v & 0xff, nullptr}; u64 k = C(2); for (u64 i = k; i-- > 0;) if (decideSlot(icmpS(EQ, 8, loadC(p + i, 8), c))) { ret = {p + i, nullptr}; return true; } return true; }
    if (n == "abort" || n == "_exit" || n == "exit" || n == "__assert_fail") { recordFail("abort", 0, n, S->model); endPath(2); }
    if (n == "writev") { ret = {0, nullptr}; return true; }
    if (n == "getenv" || n == "setenv" || n == "unsetenv") {
        std::string name; u64 p = C(0); for (;; p++) { u8 b = (u8)concretize(loadC(p, 8), 8); if (!b) break; name += (char)b; }
        auto it = S->env.find(name);
        if (n == "getenv") { ret = {it == S->env.end() ? 0 : it->second, nullptr}; return true; }
        ret = {0, nullptr};
        if (n == "unsetenv") { if (it != S->env.end()) S->env.erase(it); return true; }
        if (it != S->env.end() && !C(2)) return true;
        u64 q = C(1), k = 0;
        for (;; k++) { Slot s = loadC(q + k, 8); if (s.e ? decide(X.bin(EQ, s.e, X.cst(0, 8))) : s.v == 0) break; }
        u64 v = heapAlloc(k + 1, 16); copyMem(v, q, k); setByte(v + k, 0, nullptr);
        S->env[name] = v; return true;
    }
    if (n == "getpwuid_r") { storeC(C(4), {0, nullptr}, 64); ret = {2, nullptr}; return true; }
    if (n == "getuid" || n == "geteuid") { ret = {0, nullptr}; return true; }
    if (n == "getrandom") { u64 p = C(0), k = C(1); for (u64 i = 0; i < k; i++) setByte(p + i, 0x5a, nullptr); ret = {k, nullptr}; return true; }
    if (n == "syscall") { u64 no = C(0); if (no == 318) { u64 p = C(1), k = C(2); for (u64 i = 0; i < k; i++) setByte(p + i, 0x5a, nullptr); ret = {k, nullptr}; return true; } if (no == 202) { ret = {0, nullptr}; return true; } setErr(38); ret = {maskw(64), nullptr}; return true; }
    if (n == "clock_gettime") { u64 p = C(1); storeC(p, {vclock++, nullptr}, 64); storeC(p + 8, {0, nullptr}, 64); return true; }
    if (n == "__errno_location") { errnoCell(); ret = {S->lastErrno, nullptr}; return true; }
    if (fsCall(n, a, ret)) return true;
    if (n == "sysconf") { u64 k = C(0); ret = {k == 84 || k == 83 ? 1ull : k == 30 ? 4096ull : 1ull, nullptr}; return true; }
    if (n == "sched_getaffinity") { u64 k = C(1), p = C(2); for (u64 i = 0; i < k; i++) setByte(p + i, i == 0, nullptr); return true; }
    if (n == "pthread_self") { ret = {1, nullptr}; return true; }
    if (n.compare(0, 8, "pthread_") == 0 || n == "__cxa_thread_atexit_impl" || n == "munmap" || n == "sched_yield" || n == "sigaltstack" || n == "dl_iterate_phdr" || n == "gettid" || n == "getpid" || n == "__cxa_atexit") { return true; }
    if (n.compare(0, 8, "_Unwind_") == 0) { ret = {5, nullptr}; return true; }
    if (n == "fmod" || n == "pow" || n == "log" || n == "exp" || n == "log10" || n == "floor" || n == "ceil" || n == "trunc" || n == "round") {
        needConc(a[0], "float"); double x, y = 0; u64 u = (u64)a[0].v; memcpy(&x, &u, 8); if (a.size() > 1) { needConc(a[1], "float"); u = (u64)a[1].v; memcpy(&y, &u, 8); }
        double r = n == "fmod" ? fmod(x, y) : n == "pow" ? pow(x, y) : n == "log" ? log(x) : n == "exp" ? exp(x) : n == "log10" ? log10(x) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "trunc" ? trunc(x) : round(x); memcpy(&u, &r, 8); ret = {u, nullptr}; return true;
    }
    incomplete("extern:" + n);
}

static Slot ctz(const Slot &s, unsigned w, bool lead) {
    if (!s.e) { unsigned r = 0; if (lead) { for (int i = w - 1; i >= 0 && !((s.v >> i) & 1); i--) r++; } else { while (r < w && !((s.v >> r) & 1)) r++; } return {r, nullptr}; }
    Expr *r = X.cst(w, w);
    if (lead) { for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(s.e, i, i), X.cst(w - 1 - i, w), r); }
    else { for (int i = w - 1; i >= 0; i--) r = X.ite(X.extract(s.e, i, i), X.cst(i, w), r); }
    return mk(r);
}
static double toD(u128 v, unsigned w) { if (w == 32) { float f; u32 u = (u32)v; memcpy(&f, &u, 4); return f; } double d; u64 u = (u64)v; memcpy(&d, &u, 8); return d; }
static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 u; memcpy(&u, &f, 4); return u; } u64 u; memcpy(&u, &d, 8); return u; }

static void doIntrin(Frame &f, Inst &I) {
    auto A = [&](int op, int k) -> Slot & { return R(f, op >= 0 ? op + k : op - k); };
    unsigned w = I.w; int n = std::max(1, I.n);
    auto setd = [&](int k, const Slot &s) { if (I.dst >= 0) S->regs[f.base + I.dst + k] = s; };
    switch (I.sub) {
    case X_NOP: break;
    case X_RETA: for (int k = 0; k < n; k++) setd(k, A(I.a, k)); break;
    case X_MEMCPY: { u64 d = (u64)concretize(A(I.a, 0), 64), s = (u64)concretize(A(I.b, 0), 64), k = (u64)concretize(A(I.c, 0), 64); copyMem(d, s, k); break; }
    case X_MEMSET: { u64 d = (u64)concretize(A(I.a, 0), 64), k = (u64)concretize(A(I.c, 0), 64); Slot b = A(I.b, 0); for (u64 i = 0; i < k; i++) setByte(d + i, (u8)b.v, b.e); break; }
    case X_CTLZ: for (int k = 0; k < n; k++) setd(k, ctz(A(I.a, k), w, true)); break;
    case X_CTTZ: for (int k = 0; k < n; k++) setd(k, ctz(A(I.a, k), w, false)); break;
    case X_CTPOP: for (int k = 0; k < n; k++) { Slot s = A(I.a, k); if (!s.e) { u128 c = 0; for (unsigned i = 0; i < w; i++) c += (s.v >> i) & 1; setd(k, {c, nullptr}); } else { Expr *r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(ADD, r, w == 1 ? X.extract(s.e, i, i) : X.zext(X.extract(s.e, i, i), w)); setd(k, mk(r)); } } break;
    case X_BSWAP: for (int k = 0; k < n; k++) { Slot s = A(I.a, k); unsigned nb = w / 8; if (!s.e) { u128 r = 0; for (unsigned i = 0; i < nb; i++) r |= ((s.v >> (8 * i)) & 0xff) << (8 * (nb - 1 - i)); setd(k, {r, nullptr}); } else { Expr *r = X.extract(s.e, 7, 0); for (unsigned i = 1; i < nb; i++) r = X.concat(r, X.extract(s.e, 8 * i + 7, 8 * i)); setd(k, mk(r)); } } break;
    case X_BITREV: for (int k = 0; k < n; k++) { Slot s = A(I.a, k); if (!s.e) { u128 r = 0; for (unsigned i = 0; i < w; i++) r |= ((s.v >> i) & 1) << (w - 1 - i); setd(k, {r, nullptr}); } else { Expr *r = X.extract(s.e, 0, 0); for (unsigned i = 1; i < w; i++) r = X.concat(r, X.extract(s.e, i, i)); setd(k, mk(r)); } } break;
    case X_FSHL: case X_FSHR: for (int k = 0; k < n; k++) {
        Slot a = A(I.a, k), b = A(I.b, k), c = A(I.c, k); u64 sh = (u64)concretize(c, w) % w;
        if (I.sub == X_FSHR) sh = sh ? w - sh : 0; bool fr0 = I.sub == X_FSHR && sh == 0;
        if (fr0) { setd(k, b); continue; } if (!sh) { setd(k, a); continue; }
        if (!a.e && !b.e) setd(k, {((a.v << sh) | (b.v >> (w - sh))) & maskw(w), nullptr});
        else setd(k, mk(X.concat(X.extract(ex(a, w), w - 1 - sh, 0), X.extract(ex(b, w), w - 1, w - sh)))); } break;
    case X_UMAX: case X_UMIN: case X_SMAX: case X_SMIN: for (int k = 0; k < n; k++) { Slot a = A(I.a, k), b = A(I.b, k); Slot lt = icmpS(I.sub == X_UMAX || I.sub == X_UMIN ? ULT : SLT, w, a, b); bool mx = I.sub == X_UMAX || I.sub == X_SMAX; setd(k, mx ? iteS(lt, b, a, w) : iteS(lt, a, b, w)); } break;
    case X_ABS: for (int k = 0; k < n; k++) { Slot a = A(I.a, k); Slot lt = icmpS(SLT, w, a, {0, nullptr}); setd(k, iteS(lt, binS(SUB, w, {0, nullptr}, a), a, w)); } break;
    case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: {
        Slot a = A(I.a, 0), b = A(I.b, 0); Slot r, o;
        if (I.sub == X_UADDO) { r = binS(ADD, w, a, b); o = icmpS(ULT, w, r, a); }
        else if (I.sub == X_USUBO) { r = binS(SUB, w, a, b); o = icmpS(ULT, w, a, b); }
        else if (I.sub == X_UMULO) { r = binS(MUL, w, a, b); if (!a.e && !b.e) { o = {(u128)(a.v && (w <= 64 ? (a.v * b.v) >> w != 0 : (a.v * b.v) / a.v != b.v)), nullptr}; } else if (w <= 64) { Expr *p = X.bin(MUL, X.zext(ex(a, w), 2 * w), X.zext(ex(b, w), 2 * w)); o = notS(mk(X.bin(EQ, X.extract(p, 2 * w - 1, w), X.cst(0, w)))); } else incomplete("umulo128"); }
        else if (I.sub == X_SADDO) { r = binS(ADD, w, a, b); if (!r.e && !a.e && !b.e) { i128 x = sextv(a.v, w) + sextv(b.v, w); o = {(u128)(x != sextv((u128)x, w)), nullptr}; } else { Expr *ea = ex(a, w), *eb = ex(b, w), *er = ex(r, w); o = mk(X.extract(X.bin(AND, X.bin(XOR, ea, er), X.bin(XOR, eb, er)), w - 1, w - 1)); } }
        else if (I.sub == X_SSUBO) { r = binS(SUB, w, a, b); if (!r.e && !a.e && !b.e) { i128 x = sextv(a.v, w) - sextv(b.v, w); o = {(u128)(x != sextv((u128)x, w)), nullptr}; } else { Expr *ea = ex(a, w), *eb = ex(b, w), *er = ex(r, w); o = mk(X.extract(X.bin(AND, X.bin(XOR, ea, eb), X.bin(XOR, ea, er)), w - 1, w - 1)); } }
        else { r = binS(MUL, w, a, b); if (!a.e && !b.e && w <= 64) { i128 x = sextv(a.v, w) * sextv(b.v, w); o = {(u128)(x != sextv((u128)x, w)), nullptr}; } else if (w <= 64) { Expr *p = X.bin(MUL, X.sext(ex(a, w), 2 * w), X.sext(ex(b, w), 2 * w)); o = notS(mk(X.bin(EQ, p, X.sext(X.extract(p, w - 1, 0), 2 * w)))); } else incomplete("smulo128"); }
        setd(0, r); setd(1, o); break;
    }
    case X_UADDS: for (int k = 0; k < n; k++) { Slot a = A(I.a, k), b = A(I.b, k); Slot r = binS(ADD, w, a, b); setd(k, iteS(icmpS(ULT, w, r, a), {maskw(w), nullptr}, r, w)); } break;
    case X_USUBS: for (int k = 0; k < n; k++) { Slot a = A(I.a, k), b = A(I.b, k); Slot r = binS(SUB, w, a, b); setd(k, iteS(icmpS(ULT, w, a, b), {0, nullptr}, r, w)); } break;
    case X_SADDS: case X_SSUBS: { Slot a = A(I.a, 0), b = A(I.b, 0); u128 x = concretize(a, w), y = concretize(b, w); i128 r = I.sub == X_SADDS ? sextv(x, w) + sextv(y, w) : sextv(x, w) - sextv(y, w); i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1; if (r > mx) r = mx; if (r < mn) r = mn; setd(0, {(u128)r & maskw(w), nullptr}); break; }
    case X_UCMP: case X_SCMP: { unsigned rw = I.ty->bits; for (int k = 0; k < n; k++) { Slot a = A(I.a, k), b = A(I.b, k); Slot lt = icmpS(I.sub == X_UCMP ? ULT : SLT, w, a, b), eq = icmpS(EQ, w, a, b); setd(k, iteS(lt, {maskw(rw), nullptr}, iteS(eq, {0, nullptr}, {1, nullptr}, rw), rw)); } break; }
    case X_ISCONST: setd(0, {0, nullptr}); break;
    case X_TLS: setd(0, A(I.a, 0)); break;
    case X_TRAP: recordFail("trap", 0, "llvm.trap", S->model); endPath(2);
    case X_LOADREL: { Slot p = A(I.a, 0), o = A(I.b, 0); u64 pp = (u64)concretize(p, 64); u64 oo = (u64)concretize(o, 64); Slot v = loadC(pp + oo, 32); setd(0, {(pp + (u64)sextv(v.v, 32)), nullptr}); break; }
    case X_PTRMASK: setd(0, binS(AND, 64, A(I.a, 0), A(I.b, 0))); break;
    case X_VREDOR: case X_VREDAND: case X_VREDADD: case X_VREDUMAX: case X_VREDUMIN: case X_VREDXOR: {
        Slot r = A(I.a, 0); for (int k = 1; k < I.ext; k++) { Slot b = A(I.a, k);
            if (I.sub == X_VREDUMAX) r = iteS(icmpS(ULT, w, r, b), b, r, w); else if (I.sub == X_VREDUMIN) r = iteS(icmpS(ULT, w, b, r), b, r, w);
            else r = binS(I.sub == X_VREDOR ? OR : I.sub == X_VREDAND ? AND : I.sub == X_VREDADD ? ADD : XOR, w, r, b); } setd(0, r); break; }
    case X_PMOVMSKB: { Slot acc{0, nullptr}; for (int k = 0; k < I.ext; k++) { Slot b = A(I.a, k); Slot bit = b.e ? mk(X.extract(b.e, 7, 7)) : Slot{(b.v >> 7) & 1, nullptr}; Slot z = bit.e ? mk(X.zext(bit.e, 32)) : bit; acc = binS(OR, 32, acc, binS(SHL, 32, z, {(u128)k, nullptr})); } setd(0, acc); break; }
    case X_FABS: for (int k = 0; k < n; k++) { Slot a = A(I.a, k); needConc(a, "float"); setd(k, {a.v & (maskw(w) >> 1), nullptr}); } break;
    case X_FLOOR: case X_CEIL: case X_ROUND: case X_TRUNCF: { Slot a = A(I.a, 0); needConc(a, "float"); double d = toD(a.v, w); d = I.sub == X_FLOOR ? floor(d) : I.sub == X_CEIL ? ceil(d) : I.sub == X_ROUND ? round(d) : trunc(d); setd(0, {fromD(d, w), nullptr}); break; }
    case X_FMAX: case X_FMIN: case X_COPYSIGN: { Slot a = A(I.a, 0), b = A(I.b, 0); needConc(a, "float"); needConc(b, "float"); double x = toD(a.v, w), y = toD(b.v, w); double r = I.sub == X_FMAX ? fmax(x, y) : I.sub == X_FMIN ? fmin(x, y) : copysign(x, y); setd(0, {fromD(r, w), nullptr}); break; }
    case X_FMA: { Slot a = A(I.a, 0), b = A(I.b, 0), c = A(I.c, 0); needConc(a, "float"); needConc(b, "float"); needConc(c, "float"); setd(0, {fromD(fma(toD(a.v, w), toD(b.v, w), toD(c.v, w)), w), nullptr}); break; }
    case X_FPTOUISAT: case X_FPTOSISAT: { Slot a = A(I.a, 0); needConc(a, "float"); double d = toD(a.v, w); unsigned rw = I.ty->bits; u128 r; if (d != d) r = 0; else if (I.sub == X_FPTOUISAT) { if (d <= 0) r = 0; else if (d >= ldexp(1.0, rw)) r = maskw(rw); else r = (u128)d; } else { double mx = ldexp(1.0, rw - 1); if (d >= mx) r = maskw(rw) >> 1; else if (d <= -mx) r = (u128)1 << (rw - 1); else r = (u128)(i128)d & maskw(rw); } setd(0, {r, nullptr}); break; }
    default: incomplete("intrinsic:" + (I.imm ? *(std::string *)I.imm : std::string("?")));
    }
}

static void asmCall(CallInfo &ci, std::vector<Slot> &args, std::vector<Slot> &ret) {
    ret.assign(ci.retN, Slot{0, nullptr});
    if (ci.asmText.find("cpuid") != std::string::npos) return; // no CPU features
    if (ci.asmText.empty()) return;
    if (ci.asmText.size() > 3 && ci.asmText.compare(0, 2, "/*") == 0 && ci.asmText.find("*/") == ci.asmText.size() - 2) { // optimisation barrier
        for (size_t k = 0; k < ret.size() && k < args.size(); k++) ret[k] = args[k];
        return;
    }
    if (ci.asmText.find("xgetbv") != std::string::npos) return;
    incomplete("asm:" + ci.asmText.substr(0, 40));
}

static void finishPath() {
    // model-evaluated observations
    ST.paths++;
    for (auto c : S->covers) addCover(c, S->model);
    // reservoir-ish sampling of path models
    static u64 seen = 0; seen++;
    bool take = SAMPLES.size() < NSAMPLES; size_t at = SAMPLES.size();
    if (!take) { seedv = seedv * 6364136223846793005ull + 1442695040888963407ull; u64 r = (seedv >> 33) % seen; if (r < NSAMPLES) { take = true; at = r; } }
    if (take) { Sample s; s.bytes = S->model; for (auto &o : S->obs) s.obs.push_back(o.first ? (u64)X.eval(o.first, S->model.data()) : o.second); for (auto c : S->covers) s.covers.push_back(c); if (at == SAMPLES.size()) SAMPLES.push_back(s); else SAMPLES[at] = s; }
}

static void runState() {
    try {
        for (;;) {
            Frame &f = S->fr.back();
            Inst &I = f.f->code[f.pc];
            if (++S->instrs > MAXI) {
                recordFail("nontermination", 0, "instruction budget exceeded on one path", S->model); ST.instrs += S->instrs; endPath(2);
            }
            if (I.cov >= 0) COVBITS[I.cov] = 1;
            if ((S->instrs & 0xffff) == 0 && now() - T0 > TLIM) { INCOMPLETE["time-limit"]++; STOP = true; endPath(3); }
            Slot *RB = S->regs.data() + f.base;
            switch (I.op) {
            case I_BIN: {
                if (I.n == 1) {
                    Slot &a = I.a >= 0 ? RB[I.a] : f.f->consts[~I.a], &b = I.b >= 0 ? RB[I.b] : f.f->consts[~I.b];
                    if (!a.e && !b.e) {
                        u128 r;
                        switch (I.sub) {
                        case ADD: r = (a.v + b.v) & maskw(I.w); break;
                        case SUB: r = (a.v - b.v) & maskw(I.w); break;
                        case AND: r = a.v & b.v; break;
                        case OR: r = a.v | b.v; break;
                        case XOR: r = a.v ^ b.v; break;
                        default: { Slot q = binS((EOp)I.sub, I.w, a, b); r = q.v; }
                        }
                        RB[I.dst] = {r, nullptr};
                    } else {
                        if ((I.sub == UDIV || I.sub == UREM || I.sub == SDIV || I.sub == SREM) && b.e) { if (decide(X.bin(EQ, b.e, X.cst(0, I.w)))) { recordFail("div-by-zero", 0, "", S->model); endPath(2); } }
                        Slot q = binS((EOp)I.sub, I.w, a, b); S->regs[f.base + I.dst] = q;
                    }
                } else for (int k = 0; k < I.n; k++) { Slot q = binS((EOp)I.sub, I.w, R(f, I.a >= 0 ? I.a + k : I.a - k), R(f, I.b >= 0 ? I.b + k : I.b - k)); S->regs[f.base + I.dst + k] = q; }
                f.pc++; break;
            }
            case I_ICMP:
                for (int k = 0; k < I.n; k++) { Slot q = icmpS((EOp)I.sub, I.w, R(f, I.a >= 0 ? I.a + k : I.a - k), R(f, I.b >= 0 ? I.b + k : I.b - k)); if (I.flag) q = notS(q); S->regs[f.base + I.dst + k] = q; }
                f.pc++; break;
            case I_ZEXT: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k); if (a.e) a = mk(X.zext(a.e, I.w2)); RB[I.dst + k] = a; } f.pc++; break;
            case I_SEXT: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k); if (a.e) a = mk(X.sext(a.e, I.w2)); else a.v = (u128)sextv(a.v, I.w) & maskw(I.w2); RB[I.dst + k] = a; } f.pc++; break;
            case I_TRUNC: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k); if (a.e) a = mk(X.extract(a.e, I.w2 - 1, 0)); else a.v &= maskw(I.w2); RB[I.dst + k] = a; } f.pc++; break;
            case I_COPY: for (int k = 0; k < I.n; k++) RB[I.dst + k] = R(f, I.a >= 0 ? I.a + k : I.a - k); f.pc++; break;
            case I_BITCAST: { // vector<->int, different lane counts
                if ((unsigned)I.c * I.w > 128) incomplete("wide-bitcast");
                Slot acc{0, nullptr}; unsigned tot = I.c * I.w; bool sym = false; for (int k = 0; k < I.c; k++) if (R(f, I.a >= 0 ? I.a + k : I.a - k).e) sym = true;
                if (!sym) { u128 v = 0; for (int k = 0; k < I.c; k++) v |= R(f, I.a >= 0 ? I.a + k : I.a - k).v << (k * I.w); for (int k = 0; k < I.n; k++) RB[I.dst + k] = {(v >> (k * I.w2)) & maskw(I.w2), nullptr}; }
                else { Expr *e = nullptr; for (int k = 0; k < I.c; k++) { Expr *x = ex(R(f, I.a >= 0 ? I.a + k : I.a - k), I.w); e = e ? X.concat(x, e) : x; } for (int k = 0; k < I.n; k++) RB[I.dst + k] = mk(X.extract(e, k * I.w2 + I.w2 - 1, k * I.w2)); }
                (void)acc; (void)tot; f.pc++; break;
            }
            case I_SELECT: {
                if (I.flag) { for (int k = 0; k < I.n; k++) { Slot c = R(f, I.c >= 0 ? I.c + k : I.c - k); Slot q = iteS(c, R(f, I.a >= 0 ? I.a + k : I.a - k), R(f, I.b >= 0 ? I.b + k : I.b - k), I.ty->leaves[k].bits); S->regs[f.base + I.dst + k] = q; } f.pc++; break; }
                Slot c = R(f, I.c); bool cc;
                if (!c.e) cc = c.v & 1; else if (I.sub || I.n > 1) cc = decide(c.e);
                else { Slot q = iteS(c, R(f, I.a), R(f, I.b), I.ty->leaves[0].bits); S->regs[f.base + I.dst] = q; f.pc++; break; }
                int src = cc ? I.a : I.b; for (int k = 0; k < I.n; k++) RB[I.dst + k] = R(f, src >= 0 ? src + k : src - k);
                f.pc++; break;
            }
            case I_LOAD: {
                Slot a = R(f, I.a);
                if (!a.e && I.n == 1) { Slot v = loadC((u64)a.v + 0, I.w); RB[I.dst] = v; f.pc++; break; }
                if (a.e && I.n == 1) { Slot v = loadS(a, I.w); S->regs[f.base + I.dst] = v; f.pc++; break; }
                u64 p = (u64)concretize(a, 64); int k = 0; for (auto &l : I.ty->leaves) { Slot v = loadC(p + l.off, l.bits); S->regs[f.base + I.dst + k++] = v; }
                f.pc++; break;
            }
            case I_STORE: {
                Slot b = R(f, I.b); u64 p = b.e ? (u64)concretize(b, 64) : (u64)b.v;
                if (I.n == 1) storeC(p, R(f, I.a), I.w);
                else { int k = 0; for (auto &l : I.ty->leaves) { storeC(p + l.off, R(f, I.a >= 0 ? I.a + k : I.a - k), l.bits); k++; } }
                f.pc++; break;
            }
            case I_GEP: {
                Slot r = R(f, I.a); if (!r.e) r.v = (r.v + I.imm) & maskw(64); else r = binS(ADD, 64, r, {I.imm, nullptr});
                if (I.ext >= 0) for (auto &g : f.f->geps[I.ext]) {
                    Slot x = R(f, g.op); if (g.w < 64) { if (x.e) x = mk(X.sext(x.e, 64)); else x.v = (u128)sextv(x.v, g.w) & maskw(64); }
                    if (!x.e && !r.e) r.v = (r.v + x.v * g.scale) & maskw(64); else r = binS(ADD, 64, r, binS(MUL, 64, x, {g.scale, nullptr}));
                }
                S->regs[f.base + I.dst] = r; f.pc++; break;
            }
            case I_BR: takeEdge(f, I.ext); break;
            case I_CONDBR: { Slot c = R(f, I.a); bool v = c.e ? decide(c.e) : (c.v & 1); takeEdge(f, v ? I.b : I.c); break; }
            case I_SWITCH: {
                Slot a = R(f, I.a); SwitchInfo &s = f.f->switches[I.ext]; int e = s.def;
                if (!a.e) { for (size_t k = 0; k < s.vals.size(); k++) if (s.vals[k] == a.v) { e = s.edges[k]; break; } }
                else {
                    // group cases by edge target when the edges carry no phi moves
                    std::vector<char> done(s.vals.size(), 0); bool hit = false;
                    for (size_t k = 0; k < s.vals.size() && !hit; k++) if (!done[k]) {
                        Expr *c = X.bin(EQ, a.e, X.cst(s.vals[k], I.w));
                        Edge &ek = f.f->edges[s.edges[k]];
                        for (size_t j = k + 1; j < s.vals.size(); j++) if (!done[j]) { Edge &ej = f.f->edges[s.edges[j]]; if (ej.target == ek.target) { bool same = ej.moves.size() == ek.moves.size(); for (size_t q = 0; same && q < ej.moves.size(); q++) { auto &x = ej.moves[q], &y = ek.moves[q]; if (x[0] != y[0] || x[2] != y[2]) same = false; else if (x[1] != y[1]) { if (x[1] < 0 && y[1] < 0) { for (int z = 0; z < x[2]; z++) if (f.f->consts[~(x[1] - z)].v != f.f->consts[~(y[1] - z)].v) same = false; } else same = false; } } if (same) { done[j] = 1; c = X.bin(OR, c, X.bin(EQ, a.e, X.cst(s.vals[j], I.w))); } } }
                        if (decide(c)) { e = s.edges[k]; hit = true; }
                    }
                }
                takeEdge(f, e); break;
            }
            case I_RET: {
                static Slot rv[64]; int n = I.n; if (n > 64) incomplete("big-ret");
                for (int k = 0; k < n; k++) rv[k] = R(f, I.a >= 0 ? I.a + k : I.a - k);
                Frame old = f; S->fr.pop_back(); S->regs.resize(old.base); S->sp = old.sp;
                if (S->fr.empty()) { finishPath(); endPath(0); }
                Frame &c = S->fr.back();
                if (old.retDst >= 0) for (int k = 0; k < n; k++) S->regs[c.base + old.retDst + k] = rv[k];
                if (old.retEdge >= 0) takeEdge(c, old.retEdge); // pc of caller otherwise already advanced
                break;
            }
            case I_UNREACH: recordFail("unreachable", 0, "", S->model); endPath(2);
            case I_ALLOCA: {
                u64 cnt = (u64)concretize(R(f, I.a), 64); u64 n = I.imm * cnt; u64 al = std::max(16, I.ext);
                u64 p = (S->sp - n) / al * al; if (p < STACKBASE + 65536) { recordFail("stack-overflow", 0, "", S->model); endPath(2); }
                S->mem.map(p, n ? n : 1); S->sp = p; S->regs[f.base + I.dst] = {p, nullptr}; f.pc++; break;
            }
            case I_INSERTV: { for (int k = 0; k < I.n; k++) RB[I.dst + k] = (k >= I.c && k < I.c + I.ext) ? R(f, I.b >= 0 ? I.b + (k - I.c) : I.b - (k - I.c)) : R(f, I.a >= 0 ? I.a + k : I.a - k); f.pc++; break; }
            case I_EXTRACTE: { u64 k = (u64)concretize(R(f, I.b), 64); S->regs[f.base + I.dst] = R(f, I.a >= 0 ? I.a + (int)k : I.a - (int)k); f.pc++; break; }
            case I_INSERTE: { u64 k = (u64)concretize(R(f, I.c), 64); Slot v = R(f, I.b); for (int j = 0; j < I.n; j++) S->regs[f.base + I.dst + j] = R(f, I.a >= 0 ? I.a + j : I.a - j); S->regs[f.base + I.dst + k] = v; f.pc++; break; }
            case I_SHUFFLE: { auto &m = f.f->masks[I.ext]; std::vector<Slot> t(I.n); for (int k = 0; k < I.n; k++) { int x = m[k]; if (x < 0 || x >= 2 * I.c) x = 0; t[k] = x < I.c ? R(f, I.a >= 0 ? I.a + x : I.a - x) : R(f, I.b >= 0 ? I.b + (x - I.c) : I.b - (x - I.c)); } for (int k = 0; k < I.n; k++) RB[I.dst + k] = t[k]; f.pc++; break; }
            case I_ATOMICRMW: {
                u64 p = (u64)concretize(R(f, I.a), 64); Slot v = R(f, I.b), o = loadC(p, I.w), n;
                if (I.sub == 100) n = v; else if (I.sub == 101) n = iteS(icmpS(ULT, I.w, o, v), v, o, I.w); else if (I.sub == 102) n = iteS(icmpS(ULT, I.w, v, o), v, o, I.w); else if (I.sub == 103) n = binS(XOR, I.w, binS(AND, I.w, o, v), {maskw(I.w), nullptr}); else n = binS((EOp)I.sub, I.w, o, v);
                storeC(p, n, I.w); S->regs[f.base + I.dst] = o; f.pc++; break;
            }
            case I_CMPXCHG: {
                u64 p = (u64)concretize(R(f, I.a), 64); Slot o = loadC(p, I.w); Slot eq = icmpS(EQ, I.w, o, R(f, I.b)); bool e = decideSlot(eq);
                if (e) storeC(p, R(f, I.c), I.w); S->regs[f.base + I.dst] = o; S->regs[f.base + I.dst + 1] = {(u128)e, nullptr}; f.pc++; break;
            }
            case I_FENCE: f.pc++; break;
            case I_FBIN: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k), b = R(f, I.b >= 0 ? I.b + k : I.b - k); needConc(a, "float"); needConc(b, "float"); double x = toD(a.v, I.w), y = toD(b.v, I.w), r; if (I.w == 32) { float fx = (float)x, fy = (float)y; r = I.sub == 'a' ? fx + fy : I.sub == 's' ? fx - fy : I.sub == 'm' ? fx * fy : I.sub == 'd' ? fx / fy : fmodf(fx, fy); } else r = I.sub == 'a' ? x + y : I.sub == 's' ? x - y : I.sub == 'm' ? x * y : I.sub == 'd' ? x / y : fmod(x, y); RB[I.dst + k] = {fromD(r, I.w), nullptr}; } f.pc++; break;
            case I_FNEG: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k); needConc(a, "float"); RB[I.dst + k] = {a.v ^ ((u128)1 << (I.w - 1)), nullptr}; } f.pc++; break;
            case I_FCMP: { Slot a = R(f, I.a), b = R(f, I.b); needConc(a, "float"); needConc(b, "float"); double x = toD(a.v, I.w), y = toD(b.v, I.w); bool un = x != x || y != y, r = false; int p = I.sub; if (p == 0) r = false; else if (p == 15) r = true; else if (p == 7) r = !un; else if (p == 14) r = un; else { int q = p >= 8 ? p - 8 : p; bool base = q == 1 ? x == y : q == 2 ? x > y : q == 3 ? x >= y : q == 4 ? x < y : q == 5 ? x <= y : x != y; if (p == 8) base = x == y; r = p >= 8 ? (un || (p == 8 ? x == y : p == 9 ? x > y : p == 10 ? x >= y : p == 11 ? x < y : p == 12 ? x <= y : x != y)) : (!un && base); } RB[I.dst] = {(u128)r, nullptr}; f.pc++; break; }
            case I_FPTOUI: case I_FPTOSI: { Slot a = R(f, I.a); needConc(a, "float"); double d = toD(a.v, I.w); RB[I.dst] = {(I.op == I_FPTOUI ? (u128)d : (u128)(i128)d) & maskw(I.w2), nullptr}; f.pc++; break; }
            case I_UITOFP: case I_SITOFP: for (int k = 0; k < I.n; k++) { Slot a = R(f, I.a >= 0 ? I.a + k : I.a - k); u128 v = concretize(a, I.w); double d = I.op == I_UITOFP ? (double)v : (double)sextv(v, I.w); if (I.w2 == 32) { float fl = I.op == I_UITOFP ? (float)v : (float)sextv(v, I.w); u32 u; memcpy(&u, &fl, 4); S->regs[f.base + I.dst + k] = {u, nullptr}; } else S->regs[f.base + I.dst + k] = {fromD(d, 64), nullptr}; } f.pc++; break;
            case I_FPTRUNC: case I_FPEXT: { Slot a = R(f, I.a); needConc(a, "float"); RB[I.dst] = {fromD(toD(a.v, I.w), I.w2), nullptr}; f.pc++; break; }
            case I_INTRIN: doIntrin(f, I); f.pc++; break;
            case I_CALL: {
                CallInfo &ci = f.f->calls[I.ext];
                std::vector<Slot> args; args.reserve(16);
                for (auto &a : ci.args) for (int k = 0; k < a.n; k++) args.push_back(R(f, a.op >= 0 ? a.op + k : a.op - k));
                if (ci.isasm) { std::vector<Slot> ret; asmCall(ci, args, ret); for (size_t k = 0; k < ret.size(); k++) if (I.dst >= 0) S->regs[f.base + I.dst + k] = ret[k]; f.pc++; break; }
                Func *fn;
                if (ci.indirect) { u64 a = (u64)concretize(R(f, ci.fop), 64); fn = funcAt(a); if (!fn) { recordFail("bad-call", 0, "call through address " + std::to_string(a), S->model); endPath(2); } }
                else { if (ci.callee < 0) incomplete("unknown-callee"); fn = M.funcs[ci.callee]; }
                classify(fn);
                if (fn->special == SP_PANIC) { recordFail("panic", 0, fn->name, S->model); endPath(2); }
                if (fn->special == SP_EXT) {
                    Slot ret; extCall(fn, ci, f, args, ret);
                    if (I.dst >= 0 && ci.retN) S->regs[f.base + I.dst] = ret.e ? ret : Slot{ret.v & maskw(ci.retBits[0]), nullptr};
                    if (ci.normal >= 0) takeEdge(f, ci.normal); else f.pc++;
                    break;
                }
                int rd = I.dst, re = ci.normal; if (re < 0) f.pc++;
                pushFrame(fn, args.data(), (int)args.size(), rd, re);
                break;
            }
            case I_LANDINGPAD: case I_RESUME: incomplete("unwinding");
            default: incomplete("unsupported-instruction");
            }
        }
    } catch (PathEnd &p) {
        ST.instrs += S->instrs; ST.maxPathInstr = std::max(ST.maxPathInstr, S->instrs);
        if (p.kind == 1) ST.assumeCut++; else if (p.kind == 2) ST.failed++; else if (p.kind == 3) ST.incomplete++;
    }
}

static std::string hex(const std::vector<u8> &v) { std::string r; char b[3]; for (u8 x : v) { snprintf(b, 3, "%02x", x); r += b; } return r; }
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static void dumpRaw(FILE *o) { // line protocol between worker and parent
    fprintf(o, "S %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %.6f %lu %lu\n", ST.paths, ST.assumeCut, ST.failed, ST.incomplete, ST.instrs, ST.zq, ST.zsat, ST.zunsat, ST.domq, ST.cacheq, ST.repair, ST.forks, ST.assertsSym, ST.assertsConc, ST.maxPathInstr, ST.ztime, XCHECKS, XDISAGREE);
    for (auto &i : INCOMPLETE) fprintf(o, "I %lu %s\n", i.second, i.first.c_str());
    for (auto &c : COVERS) fprintf(o, "C %lu -%s\n", c.first, hex(c.second).c_str());
    for (auto &a : ASSERTIDS) fprintf(o, "A %lu %lu\n", a.first, a.second);
    for (auto &f : FAILS) fprintf(o, "F %s %lu -%s |%s|%s\n", f.kind.c_str(), f.id, hex(f.bytes).c_str(), f.msg.c_str(), f.stack.c_str());
    for (auto &s : SAMPLES) { fprintf(o, "P -%s |", hex(s.bytes).c_str()); for (auto x : s.obs) fprintf(o, " %lu", x); fprintf(o, "\n"); }
    for (size_t i = M.covs.size(); i-- > 0;) if (i < COVBITS.size() && COVBITS[i] && M.covs[i].parent >= 0) { size_t p = M.covs[i].parent; if (p < COVBITS.size()) COVBITS[p] = 1; }
    for (size_t i = 0; i < M.covs.size(); i++) if (i < COVBITS.size() && COVBITS[i]) fprintf(o, "L %u %s|%s\n", M.covs[i].line, M.covs[i].file.c_str(), M.covs[i].fn.c_str());
    for (auto f : M.funcs) if (f->entered) fprintf(o, "N %s\n", f->name.c_str());
    fprintf(o, "E\n"); fflush(o);
}
static std::vector<u8> unhex(const std::string &s) { std::vector<u8> r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((u8)strtoul(s.substr(i, 2).c_str(), 0, 16)); return r; }
struct Merged { Stats st; std::map<std::string, u64> inc; std::map<u64, std::string> cov; std::map<u64, u64> as; std::vector<std::array<std::string, 5>> fails; std::vector<std::pair<std::string, std::string>> samples; std::map<std::string, std::set<u32>> lines; std::map<std::string, std::set<std::string>> fns; std::set<std::string> entered; std::map<std::string, int> fc; int ended = 0; };
static Merged MG;
static void mergeLine(const std::string &l) {
    if (l.empty()) return;
    switch (l[0]) {
    case 'S': { Stats s; u64 xc, xd; sscanf(l.c_str() + 2, "%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lf %lu %lu", &s.paths, &s.assumeCut, &s.failed, &s.incomplete, &s.instrs, &s.zq, &s.zsat, &s.zunsat, &s.domq, &s.cacheq, &s.repair, &s.forks, &s.assertsSym, &s.assertsConc, &s.maxPathInstr, &s.ztime, &xc, &xd);
        Stats &m = MG.st; m.paths += s.paths; m.assumeCut += s.assumeCut; m.failed += s.failed; m.incomplete += s.incomplete; m.instrs += s.instrs; m.zq += s.zq; m.zsat += s.zsat; m.zunsat += s.zunsat; m.domq += s.domq; m.cacheq += s.cacheq; m.repair += s.repair; m.forks += s.forks; m.assertsSym += s.assertsSym; m.assertsConc += s.assertsConc; m.maxPathInstr = std::max(m.maxPathInstr, s.maxPathInstr); m.ztime += s.ztime; XCHECKS += xc; XDISAGREE += xd; break; }
    case 'I': { char *e; u64 n = strtoull(l.c_str() + 2, &e, 10); MG.inc[e + 1] += n; break; }
    case 'C': { char *e; u64 n = strtoull(l.c_str() + 2, &e, 10); if (!MG.cov.count(n)) MG.cov[n] = e + 2; break; }
    case 'A': { char *e; u64 n = strtoull(l.c_str() + 2, &e, 10); u64 k = strtoull(e, 0, 10); MG.as[n] += k; break; }
    case 'F': { char k[64]; u64 id; int off; sscanf(l.c_str() + 2, "%63s %lu -%n", k, &id, &off); std::string r = l.substr(2 + off); size_t q = r.find(" |"); std::string by = r.substr(0, q); std::string rest = r.substr(q + 2); size_t w = rest.find('|'); std::string key = std::string(k) + std::to_string(id); if (MG.fc[key]++ < 6) MG.fails.push_back({k, std::to_string(id), by, rest.substr(0, w), rest.substr(w + 1)}); break; }
    case 'P': { size_t q = l.find(" |"); MG.samples.push_back({l.substr(3, q - 3), l.substr(q + 2)}); break; }
    case 'L': { char *e; u32 n = strtoul(l.c_str() + 2, &e, 10); std::string r = e + 1; size_t q = r.find('|'); MG.lines[r.substr(0, q)].insert(n); MG.fns[r.substr(0, q)].insert(r.substr(q + 1)); break; }
    case 'N': MG.entered.insert(l.substr(2)); break;
    case 'E': MG.ended++; break;
    }
}
static void resetLocal() { ST = Stats(); INCOMPLETE.clear(); COVERS.clear(); ASSERTIDS.clear(); FAILS.clear(); SAMPLES.clear(); XCHECKS = XDISAGREE = 0; std::fill(COVBITS.begin(), COVBITS.end(), 0); }

int main(int argc, char **argv) {
    std::string ll, entry, outp, root = "/repo/"; std::vector<std::string> entries;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--out") outp = argv[++i]; else if (a == "--param") PARAMS.push_back(strtoull(argv[++i], 0, 0)); else if (a == "--time") TLIM = atof(argv[++i]); else if (a == "--jobs") JOBS = atoi(argv[++i]); else if (a == "--max-instr") MAXI = strtoull(argv[++i], 0, 0); else if (a == "--samples") NSAMPLES = atoi(argv[++i]); else if (a == "--root") root = argv[++i]; else if (a == "--seed") seedv = strtoull(argv[++i], 0, 0) * 7919 + 1; else if (a == "--xcheck") XCHECK = true; else if (a == "--known") KNOWNIDS.insert(strtoull(argv[++i], 0, 0)); else if (a == "--max-fails") MAXFAILS = strtoull(argv[++i], 0, 0); else if (a == "--ztimeout") ZTIMEOUT = atoi(argv[++i]); else ll = a;
    }
    T0 = now();
    FAILCTR = (std::atomic<u64> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (FAILCTR) std::atomic<u64>(0);
    rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
    M.covRoot = root; M.load(ll.c_str()); X.init();
    double tload = now() - T0;
    SOLVER = getenv("LSX_TACTIC") ? Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_BV")) : Z3_mk_simple_solver(X.z); Z3_solver_inc_ref(X.z, SOLVER);
    { Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p); Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), ZTIMEOUT); Z3_solver_set_params(X.z, SOLVER, p); }
    auto fi = M.fidx.find(entry); if (fi == M.fidx.end() || !M.funcs[fi->second]->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    std::unique_ptr<State> s0(new State()); S = s0.get();
    for (auto g : M.globals) { if (g->weak) continue; S->mem.map(g->addr, std::max<u64>(g->ty->size, 1)); }
    std::vector<u8> buf;
    for (auto g : M.globals) if (g->init.size()) { buf.assign(g->ty->size, 0); Lexer L(g->init); M.initBytes(L, g->ty, buf.data()); for (u64 i = 0; i < buf.size();) { Page *p = S->mem.wr(g->addr + i, true); unsigned o = (g->addr + i) & (PS - 1); u64 k = std::min<u64>(buf.size() - i, PS - o); memcpy(p->d + o, &buf[i], k); i += k; } }
    S->sp = STACKBASE + STACKSIZE - 4096; S->brk = HEAPBASE;
    pushFrame(M.funcs[fi->second], nullptr, 0, -1, -1);
    WORK.push_back(std::move(s0));
    size_t want = JOBS > 1 ? (size_t)JOBS * 24 : ~(size_t)0; bool split = false;
    u64 steps = 0;
    while (!WORK.empty() && !STOP) {
        std::unique_ptr<State> cur;
        if (JOBS > 1 && !split) { // breadth-first until there is enough to share
            size_t best = 0; for (size_t i = 1; i < WORK.size(); i++) if (WORK[i]->forks < WORK[best]->forks) best = i;
            cur = std::move(WORK[best]); WORK.erase(WORK.begin() + best);
        } else { cur = std::move(WORK.back()); WORK.pop_back(); }
        S = cur.get();
        runState();
        steps++;
        if (JOBS > 1 && !split && (WORK.size() >= want || (now() - T0 > 2 && WORK.size() >= (size_t)JOBS))) { split = true; break; }
        if (FAILCTR->load() >= MAXFAILS && !WORK.empty()) { INCOMPLETE["stopped-on-failures"] += WORK.size(); WORK.clear(); break; }
        if (now() - T0 > TLIM && !WORK.empty()) { INCOMPLETE["time-limit"] += WORK.size(); break; }
    }
    FILE *tmp = tmpfile(); dumpRaw(tmp); rewind(tmp); { char *l = nullptr; size_t n = 0; ssize_t k; while ((k = getline(&l, &n, tmp)) > 0) { if (l[k - 1] == '\n') l[k - 1] = 0; mergeLine(l); } free(l); } fclose(tmp);
    int workers = 0;
    if (split) {
        auto *ctr = (std::atomic<u64> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (ctr) std::atomic<u64>(0);
        std::vector<std::unique_ptr<State>> front = std::move(WORK); WORK.clear();
        // biggest subtrees (fewest forks) first
        std::stable_sort(front.begin(), front.end(), [](auto &a, auto &b) { return a->forks < b->forks; });
        std::vector<std::pair<pid_t, FILE *>> kids; fflush(stdout);
        for (int j = 0; j < JOBS; j++) {
            FILE *o = tmpfile(); pid_t p = fork();
            if (p == 0) {
                resetLocal(); seedv += 1000003ull * (j + 1); NSAMPLES = std::max<size_t>(1, NSAMPLES / JOBS + 1);
                for (;;) {
                    u64 i = ctr->fetch_add(1); if (i >= front.size()) break;
                    WORK.push_back(std::move(front[i]));
                    while (!WORK.empty() && !STOP) {
                        std::unique_ptr<State> cur = std::move(WORK.back()); WORK.pop_back(); S = cur.get(); runState();
                        if (FAILCTR->load() >= MAXFAILS) { INCOMPLETE["stopped-on-failures"] += WORK.size(); STOP = true; break; }
                        if (now() - T0 > TLIM && !WORK.empty()) { INCOMPLETE["time-limit"] += WORK.size(); STOP = true; }
                    }
                    if (STOP) { u64 r = ctr->exchange(1u << 30); if (r < front.size()) INCOMPLETE[FAILCTR->load() >= MAXFAILS ? "stopped-on-failures" : "time-limit"] += front.size() - r; break; }
                }
                dumpRaw(o); fclose(o); _exit(0);
            }
            kids.push_back({p, o}); workers++;
        }
        for (auto &k : kids) {
            int st = 0; waitpid(k.first, &st, 0); int before = MG.ended; rewind(k.second); char *l = nullptr; size_t n = 0; ssize_t z; while ((z = getline(&l, &n, k.second)) > 0) { if (l[z - 1] == '\n') l[z - 1] = 0; mergeLine(l); } free(l); fclose(k.second);
            if (MG.ended == before) MG.inc["worker-died"]++;
        }
    }
    FILE *o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    Stats &m = MG.st;
    fprintf(o, "{\"entry\":\"%s\",\"paths\":%lu,\"assume_cut\":%lu,\"failed_paths\":%lu,\"incomplete_paths\":%lu,\"instructions\":%lu,\"z3_queries\":%lu,\"z3_sat\":%lu,\"z3_unsat\":%lu,\"byte_domain_decisions\":%lu,\"cached_queries\":%lu,\"model_repairs\":%lu,\"forks\":%lu,\"asserts_symbolic\":%lu,\"asserts_concrete_on_path\":%lu,\"max_path_instructions\":%lu,\"z3_seconds\":%.3f,\"xchecks\":%lu,\"xdisagree\":%lu,\"wall_s\":%.3f,\"load_s\":%.3f,\"workers\":%d,\n", entry.c_str(), m.paths, m.assumeCut, m.failed, m.incomplete, m.instrs, m.zq, m.zsat, m.zunsat, m.domq, m.cacheq, m.repair, m.forks, m.assertsSym, m.assertsConc, m.maxPathInstr, m.ztime, XCHECKS, XDISAGREE, now() - T0, tload, workers);
    fprintf(o, "\"params\":["); for (size_t i = 0; i < PARAMS.size(); i++) fprintf(o, "%s%lu", i ? "," : "", PARAMS[i]); fprintf(o, "],\n\"incomplete\":{"); { bool c = false; for (auto &i : MG.inc) { fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(i.first).c_str(), i.second); c = true; } }
    fprintf(o, "},\n\"covers\":{"); { bool c = false; for (auto &i : MG.cov) { fprintf(o, "%s\"%lu\":\"%s\"", c ? "," : "", i.first, i.second.c_str()); c = true; } }
    fprintf(o, "},\n\"asserts\":{"); { bool c = false; for (auto &i : MG.as) { fprintf(o, "%s\"%lu\":%lu", c ? "," : "", i.first, i.second); c = true; } }
    fprintf(o, "},\n\"fails\":["); { bool c = false; for (auto &f : MG.fails) { fprintf(o, "%s{\"kind\":\"%s\",\"id\":%s,\"input\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\"}", c ? "," : "", f[0].c_str(), f[1].c_str(), f[2].c_str(), jesc(f[3]).c_str(), jesc(f[4]).c_str()); c = true; } }
    fprintf(o, "],\n\"samples\":["); { bool c = false; for (auto &f : MG.samples) { fprintf(o, "%s{\"input\":\"%s\",\"obs\":\"%s\"}", c ? "," : "", f.first.c_str(), jesc(f.second).c_str()); c = true; } }
    fprintf(o, "],\n\"functions\":{"); { bool c = false; for (auto &f : MG.fns) { fprintf(o, "%s\"%s\":[", c ? "," : "", jesc(f.first).c_str()); bool d = false; for (auto &x : f.second) { fprintf(o, "%s\"%s\"", d ? "," : "", jesc(x).c_str()); d = true; } fprintf(o, "]"); c = true; } }
    fprintf(o, "},\n\"lines\":{"); { bool c = false; for (auto &f : MG.lines) { fprintf(o, "%s\"%s\":%zu", c ? "," : "", jesc(f.first).c_str(), f.second.size()); c = true; } }
    fprintf(o, "},\"ir_functions_executed\":%zu}\n", MG.entered.size());
    if (o != stdout) fclose(o);
    fflush(stdout);
    _exit(0);
}
