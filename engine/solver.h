#pragma once
#include "expr.h"
#include <atomic>
#include <map>

struct SolverStats { std::atomic<uint64_t> queries, sat, unsat, unknown, micros, cacheHits, fallback, small; };

struct Constraint { Expr* e; std::vector<uint32_t> vars; };

struct Solver {
    ExprMgr& M;
    Z3_context ctx = nullptr;
    Z3_solver inc = nullptr;
    SolverStats* st = nullptr;
    unsigned timeoutMs = 60000;
    std::vector<Constraint> pc;
    std::unordered_map<Expr*, bool> known;       // conditions already decided on this path
    std::unordered_map<uint64_t, int> cache;
    std::vector<Z3_ast> varAst;

    explicit Solver(ExprMgr& m) : M(m) {}
    void init();
    Z3_ast tr(Expr* e);
    // 1 sat (newModel filled), 0 unsat, -1 unknown
    int check(Expr* cond, std::vector<u128>* newModel);
    void add(Expr* cond);
private:
    Z3_ast trOne(Expr* e);
    Z3_ast fpOf(Expr* e, unsigned w);
    int runZ3(const std::vector<Expr*>& q, std::vector<u128>* model, const std::vector<uint32_t>& vars);
};
