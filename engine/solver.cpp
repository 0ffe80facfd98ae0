#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

static void onErr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

void Solver::init()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, onErr);
    Z3_del_config(cfg);
    inc = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, inc);
}

Z3_ast Solver::tr(Expr* root)
{
    if (root->z) return root->z;
    std::vector<Expr*> stk{root};
    while (!stk.empty()) {
        Expr* e = stk.back();
        if (e->z) { stk.pop_back(); continue; }
        bool ready = true;
        for (auto* x : e->a) if (x && !x->z) { stk.push_back(x); ready = false; }
        if (!ready) continue;
        e->z = trOne(e);
        stk.pop_back();
    }
    return root->z;
}

Z3_ast Solver::fpOf(Expr* e, unsigned w)
{
    Z3_sort s = w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx);
    return Z3_mk_fpa_to_fp_bv(ctx, e->z, s);
}

Z3_ast Solver::trOne(Expr* e)
{
    // the context is a plain (reference counted by scope) one: asts live as long as the context
    auto A = [&](int i) { return e->a[i]->z; };
    auto b2v = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); };
    auto v2b = [&](Z3_ast v) { return Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
    switch (e->k) {
        case K::Const: return Z3_mk_numeral(ctx, u128str(e->cv).c_str(), Z3_mk_bv_sort(ctx, e->w));
        case K::Var: {
            std::string n = "v" + std::to_string(e->imm);
            return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w));
        }
        case K::Add: return Z3_mk_bvadd(ctx, A(0), A(1));
        case K::Sub: return Z3_mk_bvsub(ctx, A(0), A(1));
        case K::Mul: return Z3_mk_bvmul(ctx, A(0), A(1));
        case K::UDiv: return Z3_mk_bvudiv(ctx, A(0), A(1));
        case K::SDiv: return Z3_mk_bvsdiv(ctx, A(0), A(1));
        case K::URem: return Z3_mk_bvurem(ctx, A(0), A(1));
        case K::SRem: return Z3_mk_bvsrem(ctx, A(0), A(1));
        case K::And: return Z3_mk_bvand(ctx, A(0), A(1));
        case K::Or: return Z3_mk_bvor(ctx, A(0), A(1));
        case K::Xor: return Z3_mk_bvxor(ctx, A(0), A(1));
        case K::Shl: return Z3_mk_bvshl(ctx, A(0), A(1));
        case K::LShr: return Z3_mk_bvlshr(ctx, A(0), A(1));
        case K::AShr: return Z3_mk_bvashr(ctx, A(0), A(1));
        case K::Eq: return b2v(Z3_mk_eq(ctx, A(0), A(1)));
        case K::Ult: return b2v(Z3_mk_bvult(ctx, A(0), A(1)));
        case K::Ule: return b2v(Z3_mk_bvule(ctx, A(0), A(1)));
        case K::Slt: return b2v(Z3_mk_bvslt(ctx, A(0), A(1)));
        case K::Sle: return b2v(Z3_mk_bvsle(ctx, A(0), A(1)));
        case K::Ite: return Z3_mk_ite(ctx, v2b(A(0)), A(1), A(2));
        case K::Concat: return Z3_mk_concat(ctx, A(0), A(1));
        case K::Extract: return Z3_mk_extract(ctx, e->imm + e->w - 1, e->imm, A(0));
        case K::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, A(0));
        case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, A(0));
        default: break;
    }
    Z3_ast rne = Z3_mk_fpa_rne(ctx), rtz = Z3_mk_fpa_rtz(ctx);
    unsigned sw = e->imm;
    switch (e->k) {
        case K::FAdd: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, fpOf(e->a[0], e->w), fpOf(e->a[1], e->w)));
        case K::FSub: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, fpOf(e->a[0], e->w), fpOf(e->a[1], e->w)));
        case K::FMul: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, fpOf(e->a[0], e->w), fpOf(e->a[1], e->w)));
        case K::FDiv: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, fpOf(e->a[0], e->w), fpOf(e->a[1], e->w)));
        case K::FLt: return b2v(Z3_mk_fpa_lt(ctx, fpOf(e->a[0], sw), fpOf(e->a[1], sw)));
        case K::FLe: return b2v(Z3_mk_fpa_leq(ctx, fpOf(e->a[0], sw), fpOf(e->a[1], sw)));
        case K::FEq: return b2v(Z3_mk_fpa_eq(ctx, fpOf(e->a[0], sw), fpOf(e->a[1], sw)));
        case K::FUno: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, fpOf(e->a[0], sw)), Z3_mk_fpa_is_nan(ctx, fpOf(e->a[1], sw))}; return b2v(Z3_mk_or(ctx, 2, o)); }
        case K::FToSI: return Z3_mk_fpa_to_sbv(ctx, rtz, fpOf(e->a[0], sw), e->w);
        case K::FToUI: return Z3_mk_fpa_to_ubv(ctx, rtz, fpOf(e->a[0], sw), e->w);
        case K::SIToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, A(0), e->w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx)));
        case K::UIToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, A(0), e->w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx)));
        case K::FToF: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, fpOf(e->a[0], sw), e->w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx)));
        default: abort();
    }
}

void Solver::add(Expr* cond)
{
    if (cond->k == K::Const) return;
    if (cond->k == K::And && cond->w == 1) { add(cond->a[0]); add(cond->a[1]); known[cond] = true; return; }
    Constraint c{cond, {}};
    std::unordered_set<uint32_t> vs; std::unordered_set<Expr*> seen;
    M.collectVars(cond, vs, seen);
    c.vars.assign(vs.begin(), vs.end());
    pc.push_back(std::move(c));
    known[cond] = true;
    known[M.lnot(cond)] = false;
}

int Solver::check(Expr* cond, std::vector<u128>* newModel)
{
    if (cond->k == K::Const) { if (cond->cv && newModel) *newModel = M.model; return cond->cv ? 1 : 0; }
    st->queries++;
    // slice
    std::unordered_set<uint32_t> vs; std::unordered_set<Expr*> seen;
    M.collectVars(cond, vs, seen);
    std::vector<char> used(pc.size(), 0);
    std::vector<Expr*> q{cond};
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i]) continue;
            bool share = false;
            for (auto v : pc[i].vars) if (vs.count(v)) { share = true; break; }
            if (!share) continue;
            used[i] = 1; ch = true;
            q.push_back(pc[i].e);
            for (auto v : pc[i].vars) vs.insert(v);
        }
    }
    std::vector<uint32_t> ids;
    for (auto* e : q) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    uint64_t h = 1469598103934665603ULL;
    for (auto i : ids) h = ExprMgr::mix(h, i);
    auto it = cache.find(h);
    if (it != cache.end() && (it->second == 0 || !newModel)) { st->cacheHits++; return it->second; }
    std::vector<uint32_t> vars(vs.begin(), vs.end());
    auto t0 = std::chrono::steady_clock::now();
    unsigned bits = 0;
    for (auto v : vars) bits += M.vars[v].w;
    if (bits <= 9 && q.size() <= 48) {
        // small domain: decided by complete evaluation of the bit-vector formula
        std::vector<u128> save;
        for (auto v : vars) save.push_back(M.model[v]);
        int r = 0;
        for (uint32_t x = 0; x < (1u << bits) && !r; ++x) {
            unsigned at = 0;
            for (auto v : vars) { M.model[v] = (x >> at) & ((1u << M.vars[v].w) - 1); at += M.vars[v].w; }
            ++M.stamp;
            bool all = true;
            for (auto* e : q) if (!M.eval(e)) { all = false; break; }
            if (all) { r = 1; if (newModel) *newModel = M.model; }
        }
        for (size_t i = 0; i < vars.size(); ++i) M.model[vars[i]] = save[i];
        ++M.stamp;
        st->micros += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
        (r == 1 ? st->sat : st->unsat)++; st->small++;
        cache[h] = r;
        return r;
    }
    int r = runZ3(q, newModel, vars);
    st->micros += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    (r == 1 ? st->sat : r == 0 ? st->unsat : st->unknown)++;
    if (r >= 0) cache[h] = r;
    return r;
}

int Solver::runZ3(const std::vector<Expr*>& q, std::vector<u128>* model, const std::vector<uint32_t>& vars)
{
    Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
    Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, b1);
    for (int attempt = 0; attempt < 2; ++attempt) {
        Z3_solver s = inc;
        if (attempt == 1) {
            st->fallback++;
            s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
            Z3_solver_inc_ref(ctx, s);
        }
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), attempt == 0 ? 8000000 : 200000000); // resource limits: no timer thread to lose in a fork
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        Z3_solver_push(ctx, s);
        for (auto* e : q) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), one));
        Z3_lbool r = Z3_solver_check(ctx, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1 && model) {
            *model = M.model;
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            for (auto v : vars) {
                Z3_ast out;
                Z3_model_eval(ctx, m, tr(M.vars[v].e), true, &out);
                u128 val = 0;
                const char* str = Z3_get_numeral_string(ctx, out);
                for (const char* c = str; *c; ++c) val = val * 10 + (*c - '0');
                (*model)[v] = val;
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_pop(ctx, s, 1);
        if (attempt == 1) Z3_solver_dec_ref(ctx, s);
        if (res >= 0) return res;
    }
    return -1;
}
