#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>

std::string u128str(u128 v)
{
    if (!v) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), char('0' + (unsigned)(v % 10))); v /= 10; }
    return s;
}

u128 foldBin(K k, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    a &= m; b &= m;
    switch (k) {
        case K::Add: return (a + b) & m;
        case K::Sub: return (a - b) & m;
        case K::Mul: return (a * b) & m;
        case K::UDiv: return b ? (a / b) & m : m;
        case K::URem: return b ? (a % b) & m : a;
        case K::SDiv: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return (x >= 0 ? m : 1) & m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
        case K::SRem: { i128 x = sextv(a, w), y = sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
        case K::And: return a & b;
        case K::Or: return a | b;
        case K::Xor: return a ^ b;
        case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
        case K::AShr: { i128 x = sextv(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (unsigned)b) & m; }
        default: abort();
    }
}
bool foldCmp(K k, u128 a, u128 b, unsigned w)
{
    u128 m = maskw(w);
    a &= m; b &= m;
    switch (k) {
        case K::Eq: return a == b;
        case K::Ult: return a < b;
        case K::Ule: return a <= b;
        case K::Slt: return sextv(a, w) < sextv(b, w);
        case K::Sle: return sextv(a, w) <= sextv(b, w);
        default: abort();
    }
}
static double asD(u128 v, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; } uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

static long double asL(u128 v, unsigned w) { if (w != 80) return asD(v, w); long double l = 0; memcpy(&l, &v, 10); return l; }
static u128 fromL(long double l) { u128 x = 0; memcpy(&x, &l, 10); return x; }

u128 foldFp(K k, unsigned w, u128 a, u128 b, unsigned srcw)
{
    if (w == 80 || srcw == 80) { // x87 extended precision: concrete only
        long double x = k == K::SIToF ? (long double)sextv(a, srcw) : k == K::UIToF ? (long double)(a & maskw(srcw)) : asL(a, srcw), y = asL(b, srcw);
        switch (k) {
            case K::FAdd: return fromL(x + y); case K::FSub: return fromL(x - y); case K::FMul: return fromL(x * y); case K::FDiv: return fromL(x / y);
            case K::FLt: return x < y; case K::FLe: return x <= y; case K::FEq: return x == y; case K::FUno: return std::isnan(x) || std::isnan(y);
            case K::FToSI: if (!(x > -9.3e18L && x < 9.3e18L)) return (u128)1 << (w - 1); return (u128)(i128)x & maskw(w);
            case K::FToUI: if (!(x > -1 && x < 1.9e19L)) return 0; return (u128)x & maskw(w);
            case K::SIToF: case K::UIToF: return w == 80 ? fromL(x) : w == 32 ? fromF((float)x) : fromD((double)x);
            case K::FToF: return w == 80 ? fromL(x) : w == 32 ? fromF((float)x) : fromD((double)x);
            default: abort();
        }
    }
    switch (k) {
        case K::FAdd: return w == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a, 64) + asD(b, 64));
        case K::FSub: return w == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a, 64) - asD(b, 64));
        case K::FMul: return w == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a, 64) * asD(b, 64));
        case K::FDiv: return w == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a, 64) / asD(b, 64));
        case K::FLt: return asD(a, srcw) < asD(b, srcw);
        case K::FLe: return asD(a, srcw) <= asD(b, srcw);
        case K::FEq: return asD(a, srcw) == asD(b, srcw);
        case K::FUno: return std::isnan(asD(a, srcw)) || std::isnan(asD(b, srcw));
        case K::FToSI: { double d = asD(a, srcw); if (!(d > -9.3e18 && d < 9.3e18)) return ((u128)1 << (w - 1)); return (u128)(i128)d & maskw(w); }
        case K::FToUI: { double d = asD(a, srcw); if (!(d > -1 && d < 1.9e19)) return 0; return (u128)d & maskw(w); }
        case K::SIToF: { i128 s = sextv(a, srcw); return w == 32 ? fromF((float)s) : fromD((double)s); }
        case K::UIToF: { u128 s = a & maskw(srcw); return w == 32 ? fromF((float)s) : fromD((double)s); }
        case K::FToF: return w == 32 ? (srcw == 32 ? a : fromF((float)asD(a, 64))) : (srcw == 64 ? a : fromD((double)asF(a)));
        default: abort();
    }
}

Expr* ExprMgr::mk(K k, unsigned w, Expr* a, Expr* b, Expr* c, uint32_t imm, u128 cv)
{
    uint64_t h = mix((uint64_t)k * 131 + w, imm);
    h = mix(h, (uint64_t)cv); h = mix(h, (uint64_t)(cv >> 64));
    h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
        Expr* e = it->second;
        if (e->k == k && e->w == w && e->imm == imm && e->cv == cv && e->a[0] == a && e->a[1] == b && e->a[2] == c) return e;
    }
    Expr* e = new Expr{k, (uint16_t)w, imm, cv, {a, b, c}, (uint32_t)all.size(), 0, 0, nullptr};
    all.push_back(e);
    table.emplace(h, e);
    return e;
}

Expr* ExprMgr::var(const std::string& name, unsigned w, u128 init)
{
    uint32_t id = vars.size();
    Expr* e = mk(K::Var, w, nullptr, nullptr, nullptr, id);
    vars.push_back({name, w, e});
    model.push_back(init & maskw(w));
    return e;
}

Expr* ExprMgr::bin(K k, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (isC(a) && isC(b)) {
        bool div = (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem);
        if (!div || b->cv) return cst(foldBin(k, a->cv, b->cv, w), w);
    }
    bool comm = (k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor);
    if (comm && isC(a)) std::swap(a, b);
    if (isC(b)) {
        u128 c = b->cv;
        switch (k) {
            case K::Add: case K::Or: case K::Xor: case K::Shl: case K::LShr: case K::AShr: case K::Sub:
                if (c == 0) return a;
                break;
            case K::Mul: if (c == 0) return b; if (c == 1) return a; break;
            case K::And: if (c == 0) return b; if (c == maskw(w)) return a; break;
            case K::UDiv: case K::SDiv: if (c == 1) return a; break;
            default: break;
        }
        if (k == K::Or && c == maskw(w)) return b;
        if (k == K::Sub) return bin(K::Add, a, cst(0 - c, w));
        if (k == K::Add && a->k == K::Add && isC(a->a[1])) return bin(K::Add, a->a[0], cst(a->a[1]->cv + c, w));
        if (k == K::And) {
            // mask of low bits over zext
            if (a->k == K::ZExt && (c & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
            // contiguous low mask: turn into zext(extract)
            if ((c & (c + 1)) == 0) {
                unsigned n = 0; while (n < w && ((c >> n) & 1)) ++n;
                if (n && n < w) return zext(extract(a, 0, n), w);
            }
        }
        if (k == K::Xor && w == 1 && c == 1 && a->k == K::Xor && isC(a->a[1]) && a->a[1]->cv == 1) return a->a[0];
        if (k == K::Shl && c < w) return concat(extract(a, 0, w - (unsigned)c), cst(0, (unsigned)c));
        if (k == K::LShr && c < w) return zext(extract(a, (unsigned)c, w - (unsigned)c), w);
    }
    if (a == b) {
        if (k == K::Sub || k == K::Xor) return cst(0, w);
        if (k == K::And || k == K::Or) return a;
    }
    if (w == 1 && (k == K::And || k == K::Or)) {
        // x & !x
        auto neg = [&](Expr* x, Expr* y) { return y->k == K::Xor && isC(y->a[1]) && y->a[1]->cv == 1 && y->a[0] == x; };
        if (neg(a, b) || neg(b, a)) return cst(k == K::Or, 1);
    }
    // or of a zext'ed low part and a shifted high part: concat
    if (k == K::Or || k == K::Add) {
        for (int s = 0; s < 2; ++s) {
            Expr* x = s ? b : a; Expr* y = s ? a : b;
            if (x->k == K::Concat && isC(x->a[1]) && x->a[1]->cv == 0) {
                unsigned lw = x->a[1]->w;
                if (y->k == K::ZExt && y->a[0]->w <= lw) return concat(x->a[0], zext(y->a[0], lw));
                if (isC(y) && (y->cv >> lw) == 0) return concat(x->a[0], cst(y->cv, lw));
            }
        }
    }
    if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    return mk(k, w, a, b);
}

Expr* ExprMgr::lnot(Expr* e)
{
    if (isC(e)) return cst(!e->cv, 1);
    if (e->k == K::Xor && isC(e->a[1]) && e->a[1]->cv == 1 && e->w == 1) return e->a[0];
    return mk(K::Xor, 1, e, cst(1, 1));
}

Expr* ExprMgr::cmp(K k, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(foldCmp(k, a->cv, b->cv, w), 1);
    if (a == b) return cst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
    if (k == K::Eq) {
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (w == 1) return b->cv ? a : lnot(a);
            if (a->k == K::ZExt) {
                if (b->cv >> a->a[0]->w) return cst(0, 1);
                return cmp(K::Eq, a->a[0], cst(b->cv, a->a[0]->w));
            }
            if (a->k == K::SExt) {
                u128 lowv = b->cv & maskw(a->a[0]->w);
                if (((u128)sextv(lowv, a->a[0]->w) & maskw(w)) != b->cv) return cst(0, 1);
                return cmp(K::Eq, a->a[0], cst(lowv, a->a[0]->w));
            }
            if (a->k == K::Ite && (isC(a->a[1]) || isC(a->a[2]))) {
                Expr* t = cmp(K::Eq, a->a[1], b); Expr* f = cmp(K::Eq, a->a[2], b);
                return ite(a->a[0], t, f);
            }
            if (a->k == K::Add && isC(a->a[1])) return cmp(K::Eq, a->a[0], cst(b->cv - a->a[1]->cv, w));
            if (a->k == K::Xor && isC(a->a[1])) return cmp(K::Eq, a->a[0], cst(b->cv ^ a->a[1]->cv, w));
            if (a->k == K::Concat) {
                unsigned lw = a->a[1]->w;
                return bin(K::And, cmp(K::Eq, a->a[0], cst(b->cv >> lw, a->a[0]->w)), cmp(K::Eq, a->a[1], cst(b->cv, lw)));
            }
        } else if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return cmp(K::Eq, a->a[0], b->a[0]);
        else if (a->id > b->id) std::swap(a, b);
    }
    if (k == K::Ult && isC(b) && b->cv == 0) return cst(0, 1);
    if (k == K::Ult && isC(b) && b->cv == 1) return cmp(K::Eq, a, cst(0, w));
    if (k == K::Ule && isC(a) && a->cv == 0) return cst(1, 1);
    if (k == K::Ule && isC(b) && b->cv == maskw(w)) return cst(1, 1);
    if ((k == K::Ult || k == K::Ule) && a->k == K::ZExt && isC(b)) {
        unsigned iw = a->a[0]->w;
        if (b->cv >> iw) return cst(1, 1);
        return cmp(k, a->a[0], cst(b->cv, iw));
    }
    if ((k == K::Ult || k == K::Ule) && b->k == K::ZExt && isC(a)) {
        unsigned iw = b->a[0]->w;
        if (a->cv >> iw) return cst(0, 1);
        return cmp(k, cst(a->cv, iw), b->a[0]);
    }
    return mk(k, 1, a, b);
}

Expr* ExprMgr::ite(Expr* c, Expr* t, Expr* f)
{
    if (isC(c)) return c->cv ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
        if (isC(t) && isC(f)) return t->cv ? c : lnot(c);
        if (isC(t)) return t->cv ? bin(K::Or, c, f) : bin(K::And, lnot(c), f);
        if (isC(f)) return f->cv ? bin(K::Or, lnot(c), t) : bin(K::And, c, t);
    }
    return mk(K::Ite, t->w, c, t, f);
}

Expr* ExprMgr::concat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst((hi->cv << lo->w) | lo->cv, w);
    if (isC(hi) && hi->cv == 0) return zext(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->imm == lo->imm + lo->w)
        return extract(hi->a[0], lo->imm, w);
    if (hi->k == K::Extract && hi->a[0] == lo && hi->imm == lo->w) return extract(lo, 0, w); // unreachable shape, harmless
    // concat(concat(x, extract), extract)
    if (hi->k == K::Concat) {
        Expr* m = hi->a[1];
        if (m->k == K::Extract && lo->k == K::Extract && m->a[0] == lo->a[0] && m->imm == lo->imm + lo->w)
            return concat(hi->a[0], extract(m->a[0], lo->imm, m->w + lo->w));
        if (isC(m) && isC(lo)) return concat(hi->a[0], concat(m, lo));
    }
    if (lo->k == K::Concat) {
        Expr* m = lo->a[0];
        if (m->k == K::Extract && hi->k == K::Extract && m->a[0] == hi->a[0] && hi->imm == m->imm + m->w)
            return concat(extract(m->a[0], m->imm, m->w + hi->w), lo->a[1]);
    }
    return mk(K::Concat, w, hi, lo);
}

Expr* ExprMgr::extract(Expr* e, unsigned lo, unsigned w)
{
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
        case K::Const: return cst(e->cv >> lo, w);
        case K::Extract: return extract(e->a[0], e->imm + lo, w);
        case K::Concat: {
            unsigned lw = e->a[1]->w;
            if (lo + w <= lw) return extract(e->a[1], lo, w);
            if (lo >= lw) return extract(e->a[0], lo - lw, w);
            return concat(extract(e->a[0], 0, lo + w - lw), extract(e->a[1], lo, lw - lo));
        }
        case K::ZExt: {
            unsigned iw = e->a[0]->w;
            if (lo >= iw) return cst(0, w);
            if (lo + w <= iw) return extract(e->a[0], lo, w);
            return zext(extract(e->a[0], lo, iw - lo), w);
        }
        case K::SExt: {
            unsigned iw = e->a[0]->w;
            if (lo + w <= iw) return extract(e->a[0], lo, w);
            if (lo == 0) return sext(e->a[0], w);
            break;
        }
        case K::Ite:
            if ((isC(e->a[1]) && isC(e->a[2])) || w == 8) return ite(e->a[0], extract(e->a[1], lo, w), extract(e->a[2], lo, w));
            break;
        case K::And: case K::Or: case K::Xor:
            if (isC(e->a[1])) return bin(e->k, extract(e->a[0], lo, w), extract(e->a[1], lo, w));
            break;
        case K::Add: case K::Sub: case K::Mul:
            if (lo == 0) return bin(e->k, extract(e->a[0], 0, w), extract(e->a[1], 0, w));
            break;
        default: break;
    }
    return mk(K::Extract, w, e, nullptr, nullptr, lo);
}
Expr* ExprMgr::zext(Expr* e, unsigned w)
{
    if (w == e->w) return e;
    if (isC(e)) return cst(e->cv, w);
    if (e->k == K::ZExt) return zext(e->a[0], w);
    return mk(K::ZExt, w, e);
}
Expr* ExprMgr::sext(Expr* e, unsigned w)
{
    if (w == e->w) return e;
    if (isC(e)) return cst((u128)sextv(e->cv, e->w), w);
    if (e->k == K::ZExt) return zext(e->a[0], w);
    if (e->k == K::SExt) return sext(e->a[0], w);
    return mk(K::SExt, w, e);
}
Expr* ExprMgr::fp(K k, unsigned w, Expr* a, Expr* b, uint32_t srcw)
{
    if (isC(a) && (!b || isC(b))) return cst(foldFp(k, w, a->cv, b ? b->cv : 0, srcw), w);
    return mk(k, w, a, b, nullptr, srcw);
}

u128 ExprMgr::eval(Expr* root)
{
    if (root->k == K::Const) return root->cv;
    if (root->stamp == stamp) return root->ev;
    std::vector<Expr*> st{root};
    while (!st.empty()) {
        Expr* e = st.back();
        if (e->stamp == stamp || e->k == K::Const) { st.pop_back(); continue; }
        bool ready = true;
        for (auto* x : e->a) if (x && x->k != K::Const && x->stamp != stamp) { st.push_back(x); ready = false; }
        if (!ready) continue;
        auto V = [&](int i) { return e->a[i]->k == K::Const ? e->a[i]->cv : e->a[i]->ev; };
        u128 r = 0;
        switch (e->k) {
            case K::Var: r = model[e->imm]; break;
            case K::Add: case K::Sub: case K::Mul: case K::UDiv: case K::SDiv: case K::URem: case K::SRem:
            case K::And: case K::Or: case K::Xor: case K::Shl: case K::LShr: case K::AShr:
                r = foldBin(e->k, V(0), V(1), e->w); break;
            case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle:
                r = foldCmp(e->k, V(0), V(1), e->a[0]->w); break;
            case K::Ite: r = V(0) ? V(1) : V(2); break;
            case K::Concat: r = (V(0) << e->a[1]->w) | V(1); break;
            case K::Extract: r = (V(0) >> e->imm) & maskw(e->w); break;
            case K::ZExt: r = V(0); break;
            case K::SExt: r = (u128)sextv(V(0), e->a[0]->w) & maskw(e->w); break;
            default: r = foldFp(e->k, e->w, V(0), e->a[1] ? V(1) : 0, e->imm); break;
        }
        e->ev = r;
        e->stamp = stamp;
        st.pop_back();
    }
    return root->ev;
}

void ExprMgr::collectVars(Expr* root, std::unordered_set<uint32_t>& out, std::unordered_set<Expr*>& seen)
{
    std::vector<Expr*> st{root};
    while (!st.empty()) {
        Expr* e = st.back(); st.pop_back();
        if (e->k == K::Const || !seen.insert(e).second) continue;
        if (e->k == K::Var) out.insert(e->imm);
        for (auto* x : e->a) if (x) st.push_back(x);
    }
}
