// Parser/decoder for textual LLVM IR as printed by rustc (--emit=llvm-ir).
#pragma once
#include "expr.hpp"
#include <string_view>
#include <map>
#include <memory>
typedef std::string_view sv;

struct Type {
    enum K : u8 { Void, Int, Ptr, Float, Double, Array, Struct, Vector, Opaque } k = Void;
    unsigned bits = 0; u64 n = 0; Type *elem = nullptr; std::vector<Type *> el; bool packed = false;
    u64 size = 0, align = 1; std::vector<u64> offs;
    struct Leaf { u64 off; u32 bits; bool flt; bool ptr; };
    std::vector<Leaf> leaves; bool leavesDone = false;
};

enum Op : unsigned short {
    I_BIN, I_ICMP, I_SELECT, I_LOAD, I_STORE, I_GEP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_ZEXT, I_SEXT, I_TRUNC,
    I_COPY, I_BITCAST, I_ALLOCA, I_EXTRACTV, I_INSERTV, I_ATOMICRMW, I_CMPXCHG, I_SHUFFLE, I_EXTRACTE, I_INSERTE, I_FREEZE, I_FENCE,
    I_FBIN, I_FCMP, I_FNEG, I_FPTOUI, I_FPTOSI, I_UITOFP, I_SITOFP, I_FPTRUNC, I_FPEXT, I_INTRIN, I_LANDINGPAD, I_RESUME, I_UNSUP,
    I_FASTADD, I_FASTICMPBR
};
enum Intr : u8 { X_NOP, X_MEMCPY, X_MEMSET, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_BITREV, X_FSHL, X_FSHR, X_UMAX, X_UMIN, X_SMAX, X_SMIN, X_ABS,
    X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO, X_UADDS, X_USUBS, X_SADDS, X_SSUBS, X_UCMP, X_SCMP, X_ISCONST, X_TLS, X_TRAP, X_LOADREL, X_FABS,
    X_VREDOR, X_VREDAND, X_VREDADD, X_VREDUMAX, X_VREDUMIN, X_PTRMASK, X_FPTOUISAT, X_FPTOSISAT, X_RETA, X_FMA, X_FLOOR, X_ROUND, X_TRUNCF, X_COPYSIGN, X_PAUSE, X_VREDXOR, X_PMOVMSKB, X_FMAX, X_FMIN, X_CEIL, X_PSHUFB, X_UNSUP };

struct Edge { int target; std::vector<std::array<int, 3>> moves; }; // dst, src, n
struct Arg { int op; int n; };
struct GepT { int op; u64 scale; unsigned w; };
struct CallInfo { int callee = -1; int fop = 0; bool indirect = false, isasm = false; std::string asmText; std::vector<Arg> args; std::vector<unsigned> argBits; int normal = -1; /* edge for invoke */ unsigned retN = 0; std::vector<unsigned> retBits; };
struct SwitchInfo { std::vector<u128> vals; std::vector<int> edges; int def; };

struct Inst {
    Op op; u8 sub; u8 flag; unsigned short w, w2; int n; int dst; int a, b, c; int ext; int cov; u64 imm;
    const Type *ty;
};
struct Slot { u128 v; Expr *e; };

struct Func {
    std::string name; bool defined = false; bool decoded = false; sv header; sv body; // body text
    std::vector<Inst> code; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<std::vector<GepT>> geps;
    std::vector<Slot> consts; std::vector<std::vector<int>> masks; std::vector<std::vector<u32>> shapes;
    int nregs = 0; std::vector<int> params; unsigned retN = 0; std::vector<unsigned> retBits; int nparamSlots = 0;
    u64 addr = 0; int special = 0; int idx = 0; bool weak = false; bool entered = false;
};

struct Global { std::string name; Type *ty = nullptr; sv init; u64 addr = 0; bool ext = false, weak = false; };

struct CovLine { std::string file; u32 line; std::string fn; int parent; };

struct Tok { enum K : u8 { End, Word, Loc, Glob, Num, Punct, Str, Meta, Attr } k; sv s; char p; };

struct Lexer {
    const char *p, *e; Tok t;
    Lexer(sv s) : p(s.data()), e(s.data() + s.size()) { next(); }
    static bool wc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    void next() {
        while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++;
        if (p < e && *p == ';') { while (p < e && *p != '\n') p++; next(); return; }
        if (p >= e) { t.k = Tok::End; t.s = sv(); t.p = 0; return; }
        char c = *p; const char *b = p;
        t.p = 0;
        if (c == '%' || c == '@') {
            p++;
            if (p < e && *p == '"') { const char *q = ++p; while (p < e && *p != '"') p++; t.s = sv(q, p - q); p++; }
            else { const char *q = p; while (p < e && wc(*p)) p++; t.s = sv(q, p - q); }
            t.k = c == '%' ? Tok::Loc : Tok::Glob; return;
        }
        if (c == '"' || (c == 'c' && p + 1 < e && p[1] == '"')) {
            if (c == 'c') p++;
            const char *q = ++p; while (p < e && *p != '"') p++;
            t.k = Tok::Str; t.s = sv(q, p - q); p++; return;
        }
        if (c == '!') { p++; while (p < e && (wc(*p))) p++; t.k = Tok::Meta; t.s = sv(b + 1, p - b - 1); return; }
        if (c == '#') { p++; while (p < e && wc(*p)) p++; t.k = Tok::Attr; t.s = sv(b + 1, p - b - 1); return; }
        if (isdigit((unsigned char)c) || (c == '-' && p + 1 < e && isdigit((unsigned char)p[1]))) {
            p++; while (p < e && (wc(*p) || *p == '+')) p++; t.k = Tok::Num; t.s = sv(b, p - b); return;
        }
        if (isalpha((unsigned char)c) || c == '_' || c == '.' || c == '$') { while (p < e && wc(*p)) p++; t.k = Tok::Word; t.s = sv(b, p - b); return; }
        p++; t.k = Tok::Punct; t.p = c; t.s = sv(b, 1);
    }
    bool is(char c) const { return t.k == Tok::Punct && t.p == c; }
    bool isw(const char *w) const { return t.k == Tok::Word && t.s == w; }
    bool acc(char c) { if (is(c)) { next(); return true; } return false; }
    bool accw(const char *w) { if (isw(w)) { next(); return true; } return false; }
    void exp(char c) { if (!acc(c)) { fprintf(stderr, "parse error: expected '%c' near: %.*s\n", c, (int)std::min<long>(120, e - p + (long)t.s.size()), t.s.data() ? t.s.data() : ""); abort(); } }
    void skipParens() { // at '('
        int d = 0; do { if (is('(')) d++; if (is(')')) d--; next(); } while (d > 0 && t.k != Tok::End);
    }
};

struct Module {
    std::string text;
    std::unordered_map<std::string, Type *> named;
    std::unordered_map<std::string, Type *> interned;
    std::vector<Func *> funcs; std::unordered_map<std::string, int> fidx;
    std::vector<Global *> globals; std::unordered_map<std::string, int> gidx;
    std::unordered_map<std::string, std::pair<sv, bool>> aliases;
    std::unordered_map<std::string, sv> typeText;
    std::vector<sv> meta; // metadata text by number
    std::vector<CovLine> covs; std::unordered_map<u64, int> covIdx; std::string covRoot;
    std::unordered_map<u32, int> locCov;
    static const u64 CODE = 0x10000, DATA = 0x1000000;
    u64 dataEnd = DATA;
    Type *tVoid, *tPtr, *tFloat, *tDouble, *tI1, *tI8, *tI64;
    std::map<unsigned, Type *> ints;

    Type *mkInt(unsigned b) {
        auto &t = ints[b]; if (t) return t;
        t = new Type(); t->k = Type::Int; t->bits = b; u64 by = (b + 7) / 8; u64 al = 1; while (al < by) al <<= 1; if (al > 16) al = 16; t->align = al; t->size = (by + al - 1) / al * al; return t;
    }
    void init() {
        tVoid = new Type();
        tPtr = new Type(); tPtr->k = Type::Ptr; tPtr->bits = 64; tPtr->size = tPtr->align = 8;
        tFloat = new Type(); tFloat->k = Type::Float; tFloat->bits = 32; tFloat->size = tFloat->align = 4;
        tDouble = new Type(); tDouble->k = Type::Double; tDouble->bits = 64; tDouble->size = tDouble->align = 8;
        tI1 = mkInt(1); tI8 = mkInt(8); tI64 = mkInt(64);
    }
    void layout(Type *t) {
        if (t->k == Type::Array) { t->align = t->elem->align; t->size = t->elem->size * t->n; }
        else if (t->k == Type::Vector) { u64 bitsz = (t->elem->k == Type::Int ? t->elem->bits : t->elem->size * 8) * t->n; t->size = (bitsz + 7) / 8; u64 al = 1; while (al < t->size) al <<= 1; t->align = al; t->size = (t->size + al - 1) / al * al; }
        else if (t->k == Type::Struct) {
            u64 o = 0, al = 1; t->offs.clear();
            for (auto x : t->el) { u64 a = t->packed ? 1 : x->align; o = (o + a - 1) / a * a; t->offs.push_back(o); o += x->size; al = std::max(al, a); }
            t->align = al; t->size = (o + al - 1) / al * al;
        }
    }
    static bool typeStart(Lexer &L) {
        if (L.t.k == Tok::Loc) return true;
        if (L.is('[') || L.is('{') || L.is('<')) return true;
        if (L.t.k == Tok::Word) {
            if (L.t.s[0] == 'i' && L.t.s.size() > 1 && isdigit((unsigned char)L.t.s[1])) return true;
            return L.t.s == "ptr" || L.t.s == "void" || L.t.s == "float" || L.t.s == "double" || L.t.s == "metadata" || L.t.s == "label" || L.t.s == "half" || L.t.s == "fp128" || L.t.s == "x86_fp80" || L.t.s == "bfloat" || L.t.s == "token";
        }
        return false;
    }
    Type *parseType(Lexer &L) {
        if (L.t.k == Tok::Loc) {
            std::string nm(L.t.s); L.next();
            auto it = named.find(nm); if (it != named.end()) return it->second;
            auto tt = typeText.find(nm); Type *t;
            if (tt == typeText.end()) { t = new Type(); t->k = Type::Opaque; }
            else { Lexer M(tt->second); t = parseType(M); }
            named[nm] = t; return t;
        }
        if (L.t.k == Tok::Word) {
            sv s = L.t.s; Type *t = nullptr;
            if (s[0] == 'i' && isdigit((unsigned char)s[1])) t = mkInt(atoi(std::string(s.substr(1)).c_str()));
            else if (s == "ptr") { L.next(); if (L.accw("addrspace")) L.skipParens(); return tPtr; }
            else if (s == "float") t = tFloat; else if (s == "double") t = tDouble;
            else if (s == "half" || s == "bfloat") t = mkInt(16);
            else if (s == "fp128") t = mkInt(128);
            else t = tVoid;
            L.next(); return t;
        }
        Type *t = new Type(); std::string key;
        if (L.acc('[')) { t->k = Type::Array; t->n = strtoull(std::string(L.t.s).c_str(), 0, 10); L.next(); L.next(); t->elem = parseType(L); L.exp(']'); }
        else if (L.acc('{')) { t->k = Type::Struct; while (!L.is('}')) { t->el.push_back(parseType(L)); L.acc(','); } L.exp('}'); }
        else if (L.acc('<')) {
            if (L.acc('{')) { t->k = Type::Struct; t->packed = true; while (!L.is('}')) { t->el.push_back(parseType(L)); L.acc(','); } L.exp('}'); L.exp('>'); }
            else { t->k = Type::Vector; t->n = strtoull(std::string(L.t.s).c_str(), 0, 10); L.next(); L.next(); t->elem = parseType(L); L.exp('>'); }
        } else { fprintf(stderr, "bad type near %.*s\n", 80, L.t.s.data() ? L.t.s.data() : ""); abort(); }
        layout(t); return t;
    }
    const std::vector<Type::Leaf> &leaves(Type *t) {
        if (t->leavesDone) return t->leaves;
        t->leavesDone = true;
        switch (t->k) {
        case Type::Int: t->leaves.push_back({0, t->bits, false, false}); break;
        case Type::Ptr: t->leaves.push_back({0, 64, false, true}); break;
        case Type::Float: t->leaves.push_back({0, 32, true, false}); break;
        case Type::Double: t->leaves.push_back({0, 64, true, false}); break;
        case Type::Array: for (u64 i = 0; i < t->n; i++) for (auto l : leaves(t->elem)) { l.off += i * t->elem->size; t->leaves.push_back(l); } break;
        case Type::Vector: for (u64 i = 0; i < t->n; i++) for (auto l : leaves(t->elem)) { l.off += i * t->elem->size; t->leaves.push_back(l); } break;
        case Type::Struct: for (size_t i = 0; i < t->el.size(); i++) for (auto l : leaves(t->el[i])) { l.off += t->offs[i]; t->leaves.push_back(l); } break;
        default: break;
        }
        return t->leaves;
    }
    u64 symAddr(sv nm) {
        std::string s(nm);
        auto f = fidx.find(s); if (f != fidx.end()) { Func *fn = funcs[f->second]; if (!fn->defined && fn->weak) return 0; return fn->addr; }
        auto g = gidx.find(s); if (g != gidx.end()) { if (globals[g->second]->weak) return 0; return globals[g->second]->addr; }
        auto a = aliases.find(s); if (a != aliases.end()) { Lexer L(a->second.first); Type *t = parseType(L); std::vector<u128> o; constVal(L, t, o); return (u64)o[0]; }
        fprintf(stderr, "unknown symbol %s\n", s.c_str()); return 0;
    }
    static u128 parseNum(sv s, unsigned bits) {
        bool neg = false; size_t i = 0; if (s[0] == '-') { neg = true; i = 1; }
        u128 v = 0;
        if (s.substr(i, 2) == "0x") { for (i += 2; i < s.size(); i++) { char c = s[i]; if (c == 'K' || c == 'L' || c == 'H' || c == 'M' || c == 'R') continue; int d = isdigit((unsigned char)c) ? c - '0' : (tolower(c) - 'a' + 10); v = v * 16 + d; } return v; }
        for (; i < s.size(); i++) v = v * 10 + (s[i] - '0');
        if (neg) v = 0 - v;
        return v & maskw(bits);
    }
    static u128 parseFlt(sv s, Type *t) {
        u64 u; double d;
        if (s.substr(0, 2) == "0x") { u = (u64)parseNum(s, 64); memcpy(&d, &u, 8); }
        else d = strtod(std::string(s).c_str(), 0);
        if (t->k == Type::Float) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
        memcpy(&u, &d, 8); return u;
    }
    static std::string unesc(sv s) {
        std::string r; r.reserve(s.size());
        auto hx = [](char c) { return isdigit((unsigned char)c) ? c - '0' : tolower(c) - 'a' + 10; };
        for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 2 < s.size() + 0 && isxdigit((unsigned char)s[i + 1])) { r += (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; } else if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\\') { r += '\\'; i++; } else r += s[i]; }
        return r;
    }
    u64 gepOffset(Type *t, const std::vector<u128> &idx) {
        u64 off = 0;
        for (size_t i = 0; i < idx.size(); i++) {
            i128 v = (i128)sextv(idx[i], 64);
            if (i == 0) { off += (u64)v * t->size; continue; }
            if (t->k == Type::Struct) { off += t->offs[(u64)v]; t = t->el[(u64)v]; }
            else { t = t->elem; off += (u64)v * t->size; }
        }
        return off;
    }
    // typed operand constant inside a constexpr: "type value"
    u128 constScalarTyped(Lexer &L) { Type *t = parseType(L); skipAttrs(L); std::vector<u128> o; constVal(L, t, o); return o.empty() ? 0 : o[0]; }
    static void skipAttrs(Lexer &L) {
        for (;;) {
            if (L.t.k != Tok::Word) return;
            sv s = L.t.s;
            if (s == "null" || s == "undef" || s == "poison" || s == "true" || s == "false" || s == "zeroinitializer" || s == "getelementptr" || s == "ptrtoint" || s == "inttoptr" || s == "bitcast" || s == "add" || s == "sub" || s == "trunc" || s == "splat" || s == "asm" || s == "none" || s == "blockaddress" || s == "addrspacecast" || s == "mul" || s == "xor" || s == "icmp" || s == "select" || s == "nan" || s == "inf") return;
            if (s == "align" || s == "alignstack") { L.next(); if (L.is('(')) L.skipParens(); else L.next(); continue; }
            L.next();
            if (L.is('(')) L.skipParens();
        }
    }
    // parse constant of type t at L (after the type); append leaves to out
    void constVal(Lexer &L, Type *t, std::vector<u128> &out) {
        if (L.t.k == Tok::Word) {
            sv s = L.t.s;
            if (s == "null" || s == "undef" || s == "poison" || s == "zeroinitializer" || s == "none") { L.next(); for (size_t i = 0; i < leaves(t).size(); i++) out.push_back(0); return; }
            if (s == "true" || s == "false") { out.push_back(s == "true"); L.next(); return; }
            if (s == "splat") { L.next(); L.exp('('); Type *et = parseType(L); std::vector<u128> o; constVal(L, et, o); L.exp(')'); for (u64 i = 0; i < t->n; i++) out.push_back(o[0]); return; }
            if (s == "getelementptr") {
                L.next(); while (L.t.k == Tok::Word && !typeStart(L)) { bool inr = L.t.s == "inrange"; L.next(); if (inr && L.is('(')) L.skipParens(); }
                L.exp('(');
                Type *bt = parseType(L); L.exp(',');
                Type *pt = parseType(L); std::vector<u128> base; constVal(L, pt, base);
                std::vector<u128> idx;
                while (L.acc(',')) { while (L.isw("inrange")) L.next(); Type *it = parseType(L); std::vector<u128> o; constVal(L, it, o); idx.push_back((u128)sextv(o[0], it->bits) & maskw(64)); }
                L.exp(')');
                out.push_back((base[0] + gepOffset(bt, idx)) & maskw(64)); return;
            }
            if (s == "ptrtoint" || s == "inttoptr" || s == "bitcast" || s == "trunc" || s == "addrspacecast") {
                L.next(); L.exp('('); u128 v = constScalarTyped(L); if (!L.accw("to")) { fprintf(stderr, "constexpr cast\n"); abort(); } Type *tt = parseType(L); L.exp(')');
                out.push_back(v & maskw(tt->bits)); return;
            }
            if (s == "add" || s == "sub" || s == "mul" || s == "xor") {
                L.next(); while (L.t.k == Tok::Word) L.next(); L.exp('('); u128 a = constScalarTyped(L); L.exp(','); u128 b = constScalarTyped(L); L.exp(')');
                u128 r = s == "add" ? a + b : s == "sub" ? a - b : s == "mul" ? a * b : a ^ b; out.push_back(r & maskw(t->bits)); return;
            }
            if (t->k == Type::Float || t->k == Type::Double) { out.push_back(0); L.next(); return; }
            fprintf(stderr, "const word %.*s\n", (int)s.size(), s.data()); abort();
        }
        if (L.t.k == Tok::Num) {
            if (t->k == Type::Float || t->k == Type::Double) out.push_back(parseFlt(L.t.s, t));
            else out.push_back(parseNum(L.t.s, t->bits));
            L.next(); return;
        }
        if (L.t.k == Tok::Glob) { out.push_back(symAddr(L.t.s)); L.next(); return; }
        if (L.t.k == Tok::Str) { std::string s = unesc(L.t.s); for (u64 i = 0; i < t->n; i++) out.push_back(i < s.size() ? (u8)s[i] : 0); L.next(); return; }
        if (L.is('[') || L.is('{') || L.is('<')) {
            bool ang = L.is('<'); L.next(); bool pk = false; if (ang && L.is('{')) { L.next(); pk = true; }
            size_t i = 0;
            while (!L.is(']') && !L.is('}') && !L.is('>')) { Type *et = parseType(L); constVal(L, et, out); L.acc(','); i++; }
            L.next(); if (pk) L.next();
            return;
        }
        fprintf(stderr, "const? near %.*s\n", 80, L.t.s.data() ? L.t.s.data() : "(end)"); abort();
    }
    void initBytes(Lexer &L, Type *t, u8 *out) {
        if (L.t.k == Tok::Word && (L.t.s == "zeroinitializer" || L.t.s == "undef" || L.t.s == "poison" || L.t.s == "null")) { L.next(); return; }
        if (L.t.k == Tok::Str) { std::string s = unesc(L.t.s); memcpy(out, s.data(), std::min<u64>(s.size(), t->size)); L.next(); return; }
        if ((t->k == Type::Array || t->k == Type::Struct) && (L.is('[') || L.is('{') || L.is('<'))) {
            bool pk = L.is('<'); L.next(); if (pk) L.next();
            size_t i = 0;
            while (!L.is(']') && !L.is('}')) { Type *et = parseType(L); u64 off = t->k == Type::Array ? i * et->size : t->offs[i]; initBytes(L, et, out + off); L.acc(','); i++; }
            L.next(); if (pk) L.next();
            return;
        }
        std::vector<u128> o; constVal(L, t, o);
        auto &lv = leaves(t);
        for (size_t i = 0; i < lv.size(); i++) { u64 nb = (lv[i].bits + 7) / 8; memcpy(out + lv[i].off, &o[i], nb); }
    }

    // ---- top level scan
    void load(const char *path) {
        init();
        FILE *f = fopen(path, "rb"); if (!f) { perror(path); exit(3); }
        fseek(f, 0, SEEK_END); long sz = ftell(f); fseek(f, 0, SEEK_SET); text.resize(sz); if (fread(&text[0], 1, sz, f) != (size_t)sz) exit(3); fclose(f);
        size_t i = 0, n = text.size();
        std::vector<std::pair<sv, sv>> galias;
        while (i < n) {
            size_t e = text.find('\n', i); if (e == std::string::npos) e = n;
            sv line(&text[i], e - i); size_t nx = e + 1;
            if (line.size() && line[0] == '%') { size_t q = line.find(" = type "); if (q != sv::npos) { sv nm = line.substr(1, q - 1); if (nm[0] == '"') nm = nm.substr(1, nm.size() - 2); typeText[std::string(nm)] = line.substr(q + 8); } }
            else if (line.size() && line[0] == '@') parseGlobal(line);
            else if (line.substr(0, 7) == "define ") {
                size_t end = text.find("\n}\n", e); if (end == std::string::npos) end = n;
                addFunc(line, true, sv(&text[nx], end > nx ? end - nx + 1 : 0)); nx = end + 3;
            } else if (line.substr(0, 8) == "declare ") addFunc(line, false, sv());
            else if (line.size() && line[0] == '!' && line.size() > 1 && isdigit((unsigned char)line[1])) {
                size_t q = line.find(" = "); u64 id = strtoull(std::string(line.substr(1, q - 1)).c_str(), 0, 10); if (meta.size() <= id) meta.resize(id + 1); meta[id] = line.substr(q + 3);
            }
            i = nx;
        }
        // layout of globals
        u64 a = DATA;
        for (auto g : globals) { if (g->weak) continue; u64 al = std::max<u64>(g->ty->align, 16); a = (a + al - 1) / al * al; g->addr = a; a += std::max<u64>(g->ty->size, 1) + 16; }
        dataEnd = (a + 4095) / 4096 * 4096;
    }
    void parseGlobal(sv line) {
        Lexer L(line); std::string nm(L.t.s); L.next(); L.acc('=');
        bool ext = false, weak = false;
        for (;;) {
            if (L.t.k == Tok::Word) {
                if (L.t.s == "alias") { // alias type, ptr @x
                    L.next(); parseType(L); L.exp(','); aliases[nm] = {sv(L.t.s.data(), line.data() + line.size() - L.t.s.data()), true}; return;
                }
                if (L.t.s == "constant" || L.t.s == "global") { L.next(); break; }
                if (L.t.s == "external") ext = true;
                if (L.t.s == "extern_weak") { ext = true; weak = true; }
                L.next(); if (L.is('(')) L.skipParens();
            } else if (L.t.k == Tok::End) return;
            else L.next();
        }
        Global *g = new Global(); g->name = nm; g->ty = parseType(L); g->ext = ext; g->weak = weak;
        if (g->ty->k == Type::Opaque || g->ty->k == Type::Void) { g->ty = tI8; }
        if (!ext && L.t.k != Tok::End) { const char *b = L.t.s.data(); if (L.t.k == Tok::Str) b -= 2; else if (L.t.k == Tok::Glob) { b--; if (*b == '"') b--; } g->init = sv(b, line.data() + line.size() - b); }
        gidx[nm] = globals.size(); globals.push_back(g);
    }
    void addFunc(sv header, bool def, sv body) {
        size_t at = header.find('@'); Func *f = new Func();
        Lexer L(header.substr(at)); f->name = std::string(L.t.s); f->defined = def; f->header = header; f->body = body;
        f->weak = header.find("extern_weak") != sv::npos;
        auto it = fidx.find(f->name);
        f->idx = funcs.size(); f->addr = CODE + 16 * funcs.size(); fidx[f->name] = f->idx; funcs.push_back(f);
        (void)it;
    }

    // ---- debug info
    sv metaField(sv m, const char *key) { // returns text after key up to , or )
        std::string k = std::string(key) + ": "; size_t q = 0;
        for (;;) { q = m.find(k, q); if (q == sv::npos) return sv(); if (q == 0 || m[q - 1] == '(' || m[q - 1] == ' ') break; q++; }
        q += k.size(); size_t e = q; if (m[q] == '"') { e = m.find('"', q + 1); return m.substr(q + 1, e - q - 1); }
        while (e < m.size() && m[e] != ',' && m[e] != ')') e++;
        return m.substr(q, e - q);
    }
    sv metaRef(sv r) { if (r.size() < 2 || r[0] != '!') return sv(); u64 id = strtoull(std::string(r.substr(1)).c_str(), 0, 10); return id < meta.size() ? meta[id] : sv(); }
    int covOf(u32 loc) {
        auto it = locCov.find(loc); if (it != locCov.end()) return it->second;
        int r = -1;
        sv m = loc < meta.size() ? meta[loc] : sv();
        if (m.find("DILocation") != sv::npos) {
            u32 line = atoi(std::string(metaField(m, "line")).c_str());
            sv ia = metaField(m, "inlinedAt"); int outer = ia.size() > 1 && ia[0] == '!' ? covOf(atoi(std::string(ia.substr(1)).c_str())) : -1;
            sv sc = metaRef(metaField(m, "scope")); sv file, fn;
            for (int k = 0; k < 50 && sc.size(); k++) {
                if (file.empty()) file = metaRef(metaField(sc, "file"));
                if (sc.find("DISubprogram") != sv::npos) { fn = metaField(sc, "name"); break; }
                sc = metaRef(metaField(sc, "scope"));
            }
            sv fname = metaField(file, "filename"), dir = metaField(file, "directory");
            std::string full = fname.size() && fname[0] == '/' ? std::string(fname) : std::string(dir) + "/" + std::string(fname);
            if (line && !covRoot.empty() && full.compare(0, covRoot.size(), covRoot) == 0) {
                u64 key = (std::hash<std::string>()(full) * 1000003ull + line) * 1000003ull + (u64)(outer + 1);
                auto c = covIdx.find(key);
                if (c != covIdx.end()) r = c->second; else { r = covs.size(); covs.push_back({full.substr(covRoot.size()), line, std::string(fn), outer}); covIdx[key] = r; }
            } else r = outer;
        }
        return locCov[loc] = r;
    }

    // ---- function decoding
    struct Dec {
        Module &M; Func &F; std::unordered_map<std::string, std::pair<int, Type *>> regs; std::unordered_map<std::string, int> blocks; // name -> pc
        struct Phi { std::string block; int dst; Type *ty; std::vector<std::pair<sv, sv>> inc; };
        std::vector<std::string> blockOrder; std::unordered_map<std::string, std::vector<Phi>> phis;
        struct EdgeFix { int edge; std::string from, to; };
        std::vector<EdgeFix> fixes; std::string cur;
        std::unordered_map<std::string, Type *> fwd;
        Dec(Module &m, Func &f) : M(m), F(f) {}
        int reg(sv nm, Type *t) {
            std::string s(nm); auto it = regs.find(s); int n = (int)M.leaves(t).size();
            if (it != regs.end()) return it->second.first;
            int r = F.nregs; F.nregs += n; regs[s] = {r, t}; return r;
        }
        int constOp(const std::vector<u128> &vals) { int r = (int)F.consts.size(); for (auto v : vals) F.consts.push_back({v, nullptr}); return ~r; }
        int cimm(u128 v) { return constOp({v}); }
        int operand(Lexer &L, Type *t) {
            if (L.t.k == Tok::Loc) { int r = reg(L.t.s, t); L.next(); return r; }
            std::vector<u128> o; M.constVal(L, t, o); if (o.empty()) o.push_back(0); return constOp(o);
        }
        int edge(sv to) { int e = (int)F.edges.size(); F.edges.push_back({-1, {}}); fixes.push_back({e, cur, std::string(to)}); return e; }
        int cov(Lexer &L) { // scan rest for !dbg
            const char *b = L.t.s.data() ? L.t.s.data() - 2 : L.p; sv r(b, L.e - b); size_t q = r.rfind("!dbg !"); if (q == sv::npos) return -1;
            return M.covOf(atoi(std::string(r.substr(q + 6, 12)).c_str()));
        }
        static void skipFlags(Lexer &L) { while (L.t.k == Tok::Word && !typeStart(L)) { L.next(); if (L.is('(')) L.skipParens(); } }
        Inst &emit(Op op) { F.code.push_back(Inst()); Inst &i = F.code.back(); memset((void *)&i, 0, sizeof i); i.op = op; i.cov = -1; i.n = 1; return i; }
        unsigned nleaf(Type *t) { return (unsigned)M.leaves(t).size(); }
        unsigned bitsOf(Type *t) { auto &l = M.leaves(t); return l.empty() ? 0 : l[0].bits; }

        void run() {
            // header params
            size_t at = F.header.find('@'); Lexer H(F.header.substr(at)); H.next(); H.exp('(');
            int anon = 0;
            while (!H.is(')')) {
                if (H.is('.')) { H.next(); continue; }
                if (H.t.k == Tok::Word && H.t.s[0] == '.') { H.next(); continue; }
                Type *t = M.parseType(H); skipAttrs(H); std::string nm;
                if (H.t.k == Tok::Loc) { nm = std::string(H.t.s); if (isdigit((unsigned char)nm[0])) anon++; H.next(); } else nm = std::to_string(anon++);
                int r = reg(nm, t); F.params.push_back(r); (void)r; F.nparamSlots += nleaf(t);
                H.acc(',');
            }
            // return type
            { Lexer R(F.header.substr(7)); while (!typeStart(R)) { R.next(); if (R.is('(')) R.skipParens(); if (R.t.k == Tok::Num) R.next(); } Type *rt = M.parseType(R); F.retN = nleaf(rt); for (auto &l : M.leaves(rt)) F.retBits.push_back(l.bits); }
            sv b = F.body; size_t i = 0; bool first = true;
            cur = "";
            while (i < b.size()) {
                size_t e = b.find('\n', i); if (e == sv::npos) e = b.size();
                sv line = b.substr(i, e - i); i = e + 1;
                if (line.empty() || line == "}") continue;
                if (line[0] != ' ') { // label
                    if (line[0] == ';') continue;
                    std::string nm; if (line[0] == '"') { size_t q = line.find('"', 1); nm = std::string(line.substr(1, q - 1)); } else nm = std::string(line.substr(0, line.find(':')));
                    cur = nm; blocks[nm] = (int)F.code.size(); first = false; continue;
                }
                if (first) { cur = "\x01" "entry"; // implicit entry label: number = param count (unnamed)
                    blocks[cur] = 0; std::string num = std::to_string(anon); entryAlias = num; first = false; }
                // continuation
                size_t st = line.data() - b.data();
                sv tr = line; while (tr.size() && tr[0] == ' ') tr.remove_prefix(1);
                if (tr.substr(0, 1) == "#") continue; // #dbg records
                bool isSwitch = tr.find("switch ") == 0 && line.back() == '[';
                if (isSwitch) { size_t q = b.find("\n  ]", e); size_t q2 = b.find('\n', q + 1); if (q2 == sv::npos) q2 = b.size(); line = b.substr(st, q2 - st); i = q2 + 1; }
                else for (;;) { // lines indented deeper
                    if (i + 3 < b.size() && b[i] == ' ' && b[i + 1] == ' ' && b[i + 2] == ' ') { size_t e2 = b.find('\n', i); if (e2 == sv::npos) e2 = b.size(); line = b.substr(st, e2 - st); i = e2 + 1; } else break;
                }
                inst(line);
            }
            // resolve edges + phis
            for (auto &fx : fixes) {
                auto it = blocks.find(fx.to); if (it == blocks.end()) { fprintf(stderr, "no block %s in %s\n", fx.to.c_str(), F.name.c_str()); abort(); }
                F.edges[fx.edge].target = it->second;
                auto ph = phis.find(fx.to); if (ph == phis.end()) continue;
                for (auto &p : ph->second) {
                    bool ok = false;
                    for (auto &in : p.inc) {
                        sv from = in.second; if (from == fx.from || (fx.from == "\x01" "entry" && from == entryAlias)) {
                            Lexer L(in.first); int src = operand(L, p.ty); F.edges[fx.edge].moves.push_back({p.dst, src, (int)nleaf(p.ty)}); ok = true; break;
                        }
                    }
                    if (!ok) { fprintf(stderr, "phi no incoming from %s in %s\n", fx.from.c_str(), F.name.c_str()); abort(); }
                }
            }
        }
        std::string entryAlias;

        void inst(sv line) {
            Lexer L(line); std::string dst; bool hasDst = false;
            if (L.t.k == Tok::Loc) { dst = std::string(L.t.s); hasDst = true; L.next(); L.exp('='); }
            sv op = L.t.s; L.next();
            size_t before = F.code.size();
            inst2(L, op, dst, hasDst, line);
            if (F.code.size() > before) { size_t q = line.rfind("!dbg !"); if (q != sv::npos) F.code.back().cov = M.covOf(atoi(std::string(line.substr(q + 6, 12)).c_str())); }
        }
        void inst2(Lexer &L, sv op, const std::string &dst, bool hasDst, sv line) {
            static const std::unordered_map<std::string, EOp> bins = {{"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"udiv", UDIV}, {"sdiv", SDIV}, {"urem", UREM}, {"srem", SREM}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"shl", SHL}, {"lshr", LSHR}, {"ashr", ASHR}};
            std::string o(op);
            auto bi = bins.find(o);
            if (bi != bins.end()) {
                skipFlags(L); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); int b = operand(L, t); int d = reg(dst, t);
                Inst &i = emit(I_BIN); i.sub = bi->second; i.w = bitsOf(t); i.n = nleaf(t); i.dst = d; i.a = a; i.b = b; return;
            }
            if (o == "icmp") {
                while (L.isw("samesign")) L.next();
                std::string pr(L.t.s); L.next(); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); int b = operand(L, t);
                Type *rt = M.tI1; if (t->k == Type::Vector) { rt = new Type(); rt->k = Type::Vector; rt->n = t->n; rt->elem = M.tI1; M.layout(rt); }
                int d = reg(dst, rt); Inst &i = emit(I_ICMP); i.w = bitsOf(t); i.n = nleaf(t); i.dst = d; i.a = a; i.b = b;
                if (pr == "eq") i.sub = EQ; else if (pr == "ne") { i.sub = EQ; i.flag = 1; }
                else if (pr == "ult") i.sub = ULT; else if (pr == "ule") i.sub = ULE; else if (pr == "ugt") { i.sub = ULT; std::swap(i.a, i.b); } else if (pr == "uge") { i.sub = ULE; std::swap(i.a, i.b); }
                else if (pr == "slt") i.sub = SLT; else if (pr == "sle") i.sub = SLE; else if (pr == "sgt") { i.sub = SLT; std::swap(i.a, i.b); } else if (pr == "sge") { i.sub = SLE; std::swap(i.a, i.b); }
                return;
            }
            if (o == "zext" || o == "sext" || o == "trunc" || o == "bitcast" || o == "ptrtoint" || o == "inttoptr" || o == "fptoui" || o == "fptosi" || o == "uitofp" || o == "sitofp" || o == "fptrunc" || o == "fpext" || o == "addrspacecast" || o == "ptrtoaddr") {
                skipFlags(L); Type *t = M.parseType(L); int a = operand(L, t); L.accw("to"); Type *t2 = M.parseType(L); int d = reg(dst, t2);
                Op p = o == "zext" ? I_ZEXT : o == "sext" ? I_SEXT : o == "trunc" ? I_TRUNC : o == "bitcast" ? I_BITCAST : o == "fptoui" ? I_FPTOUI : o == "fptosi" ? I_FPTOSI : o == "uitofp" ? I_UITOFP : o == "sitofp" ? I_SITOFP : o == "fptrunc" ? I_FPTRUNC : o == "fpext" ? I_FPEXT : I_COPY;
                if ((o == "ptrtoint" || o == "inttoptr")) { if (bitsOf(t) < bitsOf(t2)) p = I_ZEXT; else if (bitsOf(t) > bitsOf(t2)) p = I_TRUNC; }
                if (p == I_BITCAST && nleaf(t) == nleaf(t2)) p = I_COPY;
                Inst &i = emit(p); i.w = bitsOf(t); i.w2 = bitsOf(t2); i.n = nleaf(t2); i.c = nleaf(t); i.dst = d; i.a = a; return;
            }
            if (o == "select") {
                skipFlags(L); Type *ct = M.parseType(L); int c = operand(L, ct); L.exp(','); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); M.parseType(L); int b = operand(L, t); int d = reg(dst, t);
                Inst &i = emit(I_SELECT); i.n = nleaf(t); i.dst = d; i.a = a; i.b = b; i.c = c; i.flag = nleaf(ct) > 1; i.ty = t; M.leaves(t); i.sub = t->k == Type::Ptr; return;
            }
            if (o == "load") {
                while (L.isw("atomic") || L.isw("volatile")) L.next(); Type *t = M.parseType(L); L.exp(','); Type *pt = M.parseType(L); int a = operand(L, pt); int d = reg(dst, t);
                Inst &i = emit(I_LOAD); i.ty = t; i.n = nleaf(t); i.w = bitsOf(t); i.dst = d; i.a = a; fixVecI1(t); return;
            }
            if (o == "store") {
                while (L.isw("atomic") || L.isw("volatile")) L.next(); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); Type *pt = M.parseType(L); int b = operand(L, pt);
                Inst &i = emit(I_STORE); i.ty = t; i.n = nleaf(t); i.w = bitsOf(t); i.a = a; i.b = b; fixVecI1(t); return;
            }
            if (o == "getelementptr") {
                skipFlags(L); Type *t = M.parseType(L); L.exp(','); Type *pt = M.parseType(L); int a = operand(L, pt); u64 off = 0; std::vector<GepT> terms; bool first = true;
                if (pt->k == Type::Vector) { Inst &i = emit(I_UNSUP); (void)i; return; }
                while (L.acc(',')) {
                    if (L.t.k == Tok::Meta) break;
                    Type *it = M.parseType(L); int ix = operand(L, it);
                    u64 sc; bool isStruct = !first && t->k == Type::Struct;
                    if (isStruct) { u64 k = (u64)F.consts[~ix].v; off += t->offs[k]; t = t->el[k]; continue; }
                    if (first) { sc = t->size; first = false; } else { t = t->elem; sc = t->size; }
                    if (ix < 0) off += (u64)sextv(F.consts[~ix].v, it->bits) * sc; else terms.push_back({ix, sc, it->bits});
                }
                int d = reg(dst, M.tPtr);
                Inst &i = emit(I_GEP); i.dst = d; i.a = a; i.imm = off; i.ext = -1; i.n = 1;
                if (terms.size()) { i.ext = (int)F.geps.size(); F.geps.push_back(terms); } return;
            }
            if (o == "br") {
                if (L.isw("label")) { L.next(); int e = edge(L.t.s); Inst &i = emit(I_BR); i.ext = e; return; }
                Type *t = M.parseType(L); int c = operand(L, t); L.exp(','); L.next(); int e1 = edge(L.t.s); L.next(); L.exp(','); L.next(); int e2 = edge(L.t.s);
                Inst &i = emit(I_CONDBR); i.a = c; i.b = e1; i.c = e2; return;
            }
            if (o == "switch") {
                Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); L.next(); SwitchInfo s; s.def = edge(L.t.s); L.next(); L.exp('[');
                while (!L.is(']')) { Type *ct = M.parseType(L); std::vector<u128> v; M.constVal(L, ct, v); L.exp(','); L.next(); s.vals.push_back(v[0]); s.edges.push_back(edge(L.t.s)); L.next(); }
                Inst &i = emit(I_SWITCH); i.a = a; i.w = t->bits; i.ext = (int)F.switches.size(); F.switches.push_back(s); return;
            }
            if (o == "ret") { if (L.isw("void")) { Inst &i = emit(I_RET); i.n = 0; return; } Type *t = M.parseType(L); int a = operand(L, t); Inst &i = emit(I_RET); i.a = a; i.n = nleaf(t); return; }
            if (o == "unreachable") { emit(I_UNREACH); return; }
            if (o == "fence") { emit(I_FENCE); return; }
            if (o == "phi") {
                skipFlags(L); Type *t = M.parseType(L); int d = reg(dst, t); Phi p; p.dst = d; p.ty = t;
                while (L.acc('[')) {
                    const char *b = L.t.s.data(); if (L.t.k == Tok::Loc || L.t.k == Tok::Glob || L.t.k == Tok::Str) b--; if (*b == '"') b--;
                    // find matching ", %label ]"
                    int depth = 0; Tok lastComma{}; const char *commaAt = nullptr; (void)lastComma;
                    for (;;) { if (L.is('(') || L.is('[') || L.is('{') || L.is('<')) depth++; else if (L.is(')') || L.is('}') || L.is('>') || (L.is(']') && depth > 0)) depth--; else if (L.is(']') && depth == 0) break; if (L.is(',') && depth == 0) commaAt = L.t.s.data(); L.next(); }
                    Lexer Q(sv(commaAt + 1, L.t.s.data() - commaAt - 1)); p.inc.push_back({sv(b, commaAt - b), Q.t.s});
                    L.next(); if (!L.acc(',')) break;
                }
                phis[cur].push_back(p); return;
            }
            if (o == "alloca") {
                while (L.isw("inalloca")) L.next(); Type *t = M.parseType(L); u64 cnt = 1; (void)cnt; int cop = cimm(1); u64 al = t->align;
                while (L.acc(',')) { if (L.t.k == Tok::Meta) break; if (L.accw("align")) { al = strtoull(std::string(L.t.s).c_str(), 0, 10); L.next(); } else { Type *ct = M.parseType(L); cop = operand(L, ct); } }
                int d = reg(dst, M.tPtr); Inst &i = emit(I_ALLOCA); i.dst = d; i.a = cop; i.imm = t->size; i.ext = (int)al; return;
            }
            if (o == "extractvalue") {
                Type *t = M.parseType(L); int a = operand(L, t); int off = 0;
                while (L.acc(',')) { if (L.t.k == Tok::Meta) break; u64 k = strtoull(std::string(L.t.s).c_str(), 0, 10); L.next(); if (t->k == Type::Struct) { for (u64 j = 0; j < k; j++) off += nleaf(t->el[j]); t = t->el[k]; } else { t = t->elem; off += (int)(k * nleaf(t)); } }
                int d = reg(dst, t); Inst &i = emit(I_COPY); i.dst = d; i.a = a >= 0 ? a + off : a - off; i.n = nleaf(t); return;
            }
            if (o == "insertvalue") {
                Type *t = M.parseType(L); Type *t0 = t; int a = operand(L, t); L.exp(','); Type *vt = M.parseType(L); int v = operand(L, vt); int off = 0;
                while (L.acc(',')) { if (L.t.k == Tok::Meta) break; u64 k = strtoull(std::string(L.t.s).c_str(), 0, 10); L.next(); if (t->k == Type::Struct) { for (u64 j = 0; j < k; j++) off += nleaf(t->el[j]); t = t->el[k]; } else { t = t->elem; off += (int)(k * nleaf(t)); } }
                int d = reg(dst, t0); Inst &i = emit(I_INSERTV); i.dst = d; i.a = a; i.b = v; i.n = nleaf(t0); i.c = off; i.ext = nleaf(vt); return;
            }
            if (o == "extractelement") { Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); Type *it = M.parseType(L); int ix = operand(L, it); int d = reg(dst, t->elem); Inst &i = emit(I_EXTRACTE); i.dst = d; i.a = a; i.b = ix; i.n = nleaf(t); return; }
            if (o == "insertelement") { Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); Type *et = M.parseType(L); int v = operand(L, et); L.exp(','); Type *it = M.parseType(L); int ix = operand(L, it); int d = reg(dst, t); Inst &i = emit(I_INSERTE); i.dst = d; i.a = a; i.b = v; i.c = ix; i.n = nleaf(t); return; }
            if (o == "shufflevector") {
                Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); M.parseType(L); int b = operand(L, t); L.exp(','); Type *mt = M.parseType(L); std::vector<u128> m; M.constVal(L, mt, m);
                Type *rt = new Type(); rt->k = Type::Vector; rt->n = mt->n; rt->elem = t->elem; M.layout(rt); int d = reg(dst, rt);
                std::vector<int> mk; for (auto x : m) mk.push_back((int)x);
                Inst &i = emit(I_SHUFFLE); i.dst = d; i.a = a; i.b = b; i.c = nleaf(t); i.n = (int)mk.size(); i.ext = (int)F.masks.size(); F.masks.push_back(mk); return;
            }
            if (o == "freeze") { Type *t = M.parseType(L); int a = operand(L, t); int d = reg(dst, t); Inst &i = emit(I_COPY); i.dst = d; i.a = a; i.n = nleaf(t); return; }
            if (o == "atomicrmw") {
                while (L.isw("volatile")) L.next(); std::string k(L.t.s); L.next(); M.parseType(L); int a = operand(L, M.tPtr); L.exp(','); Type *t = M.parseType(L); int b = operand(L, t); int d = reg(dst, t);
                Inst &i = emit(I_ATOMICRMW); i.dst = d; i.a = a; i.b = b; i.w = bitsOf(t); i.ty = t; i.flag = 0;
                static const std::unordered_map<std::string, int> ks = {{"add", ADD}, {"sub", SUB}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"xchg", 100}, {"umax", 101}, {"umin", 102}, {"nand", 103}, {"max", 104}, {"min", 105}};
                i.sub = ks.at(k); return;
            }
            if (o == "cmpxchg") {
                while (L.isw("volatile") || L.isw("weak")) L.next(); M.parseType(L); int p = operand(L, M.tPtr); L.exp(','); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); M.parseType(L); int b = operand(L, t);
                Type *rt = new Type(); rt->k = Type::Struct; rt->el = {t, M.tI1}; M.layout(rt); int d = reg(dst, rt);
                Inst &i = emit(I_CMPXCHG); i.dst = d; i.a = p; i.b = a; i.c = b; i.w = bitsOf(t); i.ty = t; return;
            }
            if (o == "fadd" || o == "fsub" || o == "fmul" || o == "fdiv" || o == "frem") { skipFlags(L); Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); int b = operand(L, t); int d = reg(dst, t); Inst &i = emit(I_FBIN); i.sub = o[1]; if (o == "frem") i.sub = 'r'; i.w = bitsOf(t); i.n = nleaf(t); i.dst = d; i.a = a; i.b = b; return; }
            if (o == "fneg") { skipFlags(L); Type *t = M.parseType(L); int a = operand(L, t); int d = reg(dst, t); Inst &i = emit(I_FNEG); i.w = bitsOf(t); i.n = nleaf(t); i.dst = d; i.a = a; return; }
            if (o == "fcmp") {
                std::string pr; while (!typeStart(L)) { pr = std::string(L.t.s); L.next(); } Type *t = M.parseType(L); int a = operand(L, t); L.exp(','); int b = operand(L, t); int d = reg(dst, M.tI1); Inst &i = emit(I_FCMP); i.w = bitsOf(t); i.n = nleaf(t); i.dst = d; i.a = a; i.b = b;
                static const char *ps[] = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"}; for (int k = 0; k < 16; k++) if (pr == ps[k]) i.sub = k; return;
            }
            if (o == "landingpad") { Type *t = M.parseType(L); reg(dst, t); emit(I_LANDINGPAD); return; }
            if (o == "resume") { emit(I_RESUME); return; }
            if (o == "tail" || o == "musttail" || o == "notail") { L.next(); call(L, dst, hasDst, false, line); return; }
            if (o == "call") { call(L, dst, hasDst, false, line); return; }
            if (o == "invoke") { call(L, dst, hasDst, true, line); return; }
            if (o == "cleanupret" || o == "callbr" || o == "indirectbr" || o == "va_arg") { emit(I_UNSUP); return; }
            fprintf(stderr, "unknown instruction: %.*s\n", (int)line.size(), line.data()); abort();
        }
        void fixVecI1(Type *) {}

        void call(Lexer &L, const std::string &dst, bool hasDst, bool invoke, sv line) {
            while (!typeStart(L)) { L.next(); if (L.is('(')) L.skipParens(); else if (L.t.k == Tok::Num) L.next(); }
            Type *rt = M.parseType(L);
            if (L.is('(')) L.skipParens(); // function type
            CallInfo ci; std::string callee; bool direct = false;
            if (L.t.k == Tok::Glob) { callee = std::string(L.t.s); direct = true; L.next(); }
            else if (L.isw("asm")) { L.next(); while (L.t.k == Tok::Word) L.next(); ci.isasm = true; ci.asmText = std::string(L.t.s); L.next(); L.exp(','); L.next(); }
            else { ci.indirect = true; ci.fop = operand(L, M.tPtr); }
            L.exp('(');
            std::vector<Type *> ats; std::vector<Type *> firstT;
            while (!L.is(')')) {
                Type *t = M.parseType(L); skipAttrs(L);
                if (t->k == Type::Void) { // metadata
                    while (!L.is(',') && !L.is(')')) { if (L.is('(')) L.skipParens(); else L.next(); } L.acc(','); continue;
                }
                int a = operand(L, t); ci.args.push_back({a, (int)nleaf(t)}); ats.push_back(t); for (auto &l : M.leaves(t)) ci.argBits.push_back(l.bits);
                L.acc(',');
            }
            L.next();
            ci.retN = nleaf(rt); for (auto &l : M.leaves(rt)) ci.retBits.push_back(l.bits);
            int d = (hasDst) ? reg(dst, rt) : -1;
            if (invoke) { // "to label %x unwind label %y"
                while (!(L.isw("to") )) L.next(); L.next(); L.next(); ci.normal = edge(L.t.s);
            }
            if (direct && callee.compare(0, 5, "llvm.") == 0) {
                Inst &i = emit(I_INTRIN); intrin(i, callee, ci, ats, rt, d);
                if (ci.normal >= 0) { int e = ci.normal; Inst &b = emit(I_BR); b.ext = e; }
                return;
            }
            if (direct) { auto it = M.fidx.find(callee); if (it == M.fidx.end()) { auto al = M.aliases.find(callee); u64 ad = al != M.aliases.end() ? M.symAddr(callee) : 0; if (ad) { ci.indirect = true; ci.fop = cimm(ad); } else { fprintf(stderr, "unknown callee %s\n", callee.c_str()); ci.callee = -1; } } else ci.callee = it->second; }
            (void)line;
            Inst &i = emit(I_CALL); i.dst = d; i.n = ci.retN; i.ext = (int)F.calls.size(); F.calls.push_back(ci);
        }
        void intrin(Inst &i, const std::string &nm, CallInfo &ci, std::vector<Type *> &ats, Type *rt, int d) {
            auto st = [&](const char *p) { return nm.compare(0, strlen(p), p) == 0; };
            i.dst = d; i.n = ci.retN; if (ci.args.size() > 0) i.a = ci.args[0].op; if (ci.args.size() > 1) i.b = ci.args[1].op; if (ci.args.size() > 2) i.c = ci.args[2].op;
            if (ats.size()) { i.w = bitsOf(ats[0]); i.ext = nleaf(ats[0]); }
            i.ty = rt;
            struct { const char *p; Intr x; } tab[] = {{"llvm.memcpy", X_MEMCPY}, {"llvm.memmove", X_MEMCPY}, {"llvm.memset", X_MEMSET}, {"llvm.ctlz", X_CTLZ}, {"llvm.cttz", X_CTTZ}, {"llvm.ctpop", X_CTPOP}, {"llvm.bswap", X_BSWAP}, {"llvm.bitreverse", X_BITREV}, {"llvm.fshl", X_FSHL}, {"llvm.fshr", X_FSHR}, {"llvm.umax", X_UMAX}, {"llvm.umin", X_UMIN}, {"llvm.smax", X_SMAX}, {"llvm.smin", X_SMIN}, {"llvm.abs", X_ABS}, {"llvm.uadd.with", X_UADDO}, {"llvm.usub.with", X_USUBO}, {"llvm.umul.with", X_UMULO}, {"llvm.sadd.with", X_SADDO}, {"llvm.ssub.with", X_SSUBO}, {"llvm.smul.with", X_SMULO}, {"llvm.uadd.sat", X_UADDS}, {"llvm.usub.sat", X_USUBS}, {"llvm.sadd.sat", X_SADDS}, {"llvm.ssub.sat", X_SSUBS}, {"llvm.ucmp", X_UCMP}, {"llvm.scmp", X_SCMP}, {"llvm.is.constant", X_ISCONST}, {"llvm.threadlocal", X_TLS}, {"llvm.trap", X_TRAP}, {"llvm.ubsantrap", X_TRAP}, {"llvm.load.relative", X_LOADREL}, {"llvm.fabs", X_FABS}, {"llvm.vector.reduce.or", X_VREDOR}, {"llvm.vector.reduce.and", X_VREDAND}, {"llvm.vector.reduce.add", X_VREDADD}, {"llvm.vector.reduce.umax", X_VREDUMAX}, {"llvm.vector.reduce.umin", X_VREDUMIN}, {"llvm.vector.reduce.xor", X_VREDXOR}, {"llvm.ptrmask", X_PTRMASK}, {"llvm.fptoui.sat", X_FPTOUISAT}, {"llvm.fptosi.sat", X_FPTOSISAT}, {"llvm.expect", X_RETA}, {"llvm.launder", X_RETA}, {"llvm.fma", X_FMA}, {"llvm.floor", X_FLOOR}, {"llvm.ceil", X_CEIL}, {"llvm.round", X_ROUND}, {"llvm.trunc.", X_TRUNCF}, {"llvm.copysign", X_COPYSIGN}, {"llvm.maxnum", X_FMAX}, {"llvm.minnum", X_FMIN}, {"llvm.x86.sse2.pause", X_NOP}, {"llvm.x86.sse2.pmovmskb", X_PMOVMSKB}, {"llvm.x86.ssse3.pshuf.b", X_PSHUFB}, {"llvm.lifetime", X_NOP}, {"llvm.assume", X_NOP}, {"llvm.experimental.noalias", X_NOP}, {"llvm.dbg", X_NOP}, {"llvm.prefetch", X_NOP}, {"llvm.invariant", X_NOP}, {"llvm.sideeffect", X_NOP}, {"llvm.va_", X_NOP}, {"llvm.donothing", X_NOP}};
            for (auto &t : tab) if (st(t.p)) { i.sub = t.x; return; }
            i.sub = X_UNSUP; i.imm = (u64) new std::string(nm);
        }
    };
    void decode(Func *f) {
        if (f->decoded) return;
        f->decoded = true;
        Dec d(*this, *f); d.run();
    }
};
