// Hash-consed bit-vector expression DAG with constant folding, concrete evaluation under a model and
// translation to Z3.  Everything the symbolic executor reasons about is one of these nodes.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,          // width 1
    Ite, Concat, Extract, ZExt, SExt,
    // IEEE binary32 / binary64, carried as bit patterns
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FUno, FToSI, FToUI, SIToF, UIToF, FToF
};

struct Expr {
    K k;
    uint16_t w;
    uint32_t imm;      // Extract: low bit; Var: variable id; FP conversions: source width
    u128 cv;           // Const
    Expr* a[3];
    uint32_t id;
    uint32_t stamp;    // evaluation memo
    u128 ev;
    Z3_ast z;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextv(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; Expr* e; };

struct ExprMgr {
    std::vector<Expr*> all;
    std::unordered_multimap<uint64_t, Expr*> table;
    std::vector<VarInfo> vars;
    std::vector<u128> model;      // var id -> value
    uint32_t stamp = 1;

    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
    Expr* mk(K k, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint32_t imm = 0, u128 cv = 0);
    Expr* cst(u128 v, unsigned w) { return mk(K::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
    Expr* var(const std::string& name, unsigned w, u128 init);
    Expr* bin(K k, Expr* a, Expr* b);
    Expr* cmp(K k, Expr* a, Expr* b);
    Expr* ite(Expr* c, Expr* t, Expr* f);
    Expr* concat(Expr* hi, Expr* lo);
    Expr* extract(Expr* e, unsigned lo, unsigned w);
    Expr* zext(Expr* e, unsigned w);
    Expr* sext(Expr* e, unsigned w);
    Expr* lnot(Expr* e);
    Expr* fp(K k, unsigned w, Expr* a, Expr* b, uint32_t srcw);
    u128 eval(Expr* e);
    void collectVars(Expr* e, std::unordered_set<uint32_t>& out, std::unordered_set<Expr*>& seen);
    static bool isC(Expr* e) { return e->k == K::Const; }
};

u128 foldBin(K k, u128 a, u128 b, unsigned w);
bool foldCmp(K k, u128 a, u128 b, unsigned w);
u128 foldFp(K k, unsigned w, u128 a, u128 b, unsigned srcw);
std::string u128str(u128 v);
