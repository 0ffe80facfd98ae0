// symx: symbolic execution of LLVM bitcode over native process memory, one process per path.
//   symx --run   <mod.bc> <mod.so> <outdir> [--jobs N] [--deadline S] [--path-insts N] [--samples N]
//   symx --replay <mod.bc> <mod.so> <inputs.txt> [--interp]
#include "expr.h"
#include "solver.h"
#include "names.h"
#include "shared.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <ffi.h>
#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <malloc.h>

using namespace llvm;
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

static const char* gNow = "";
static bool gReplay = false;          // native replay mode
static bool gInterp = false;          // the interpreter is active

// ------------------------------------------------------------------------------------------------ arena
static const uint64_t kHeapSize = 12ull << 30, kStackEach = 4ull << 20, kMaxThreads = 32;
static const uint64_t kArenaSize = kHeapSize + kStackEach * kMaxThreads;
static uint8_t* gArena = nullptr;
static uint8_t* gShadow = nullptr;    // one byte per arena byte: 0 invalid, 1 ok, 2 freed, 3 poisoned
static uint64_t gHeapTop = 4096;
struct Block { uint64_t off, size; uint8_t state; uint8_t kind; uint32_t id; };   // state 1 live 2 freed; kind 0 malloc 1 new 2 internal
static std::vector<Block> gBlocks;
static uint64_t gLive = 0;

static inline bool inArena(uint64_t a) { return a - (uint64_t)gArena < kArenaSize; }
static Block* findBlock(uint64_t a)
{
    uint64_t off = a - (uint64_t)gArena;
    size_t lo = 0, hi = gBlocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (gBlocks[m].off <= off) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Block& b = gBlocks[lo - 1];
    if (off < b.off + b.size || off == b.off) return &b;
    return nullptr;
}
static void* arenaAlloc(uint64_t size, uint64_t align, uint8_t kind)
{
    if (align < 16) align = 16;
    uint64_t off = (gHeapTop + 16 + align - 1) & ~(align - 1);
    if (off + size + 64 > kHeapSize) return nullptr;
    gHeapTop = off + size + 16;
    gHeapTop = (gHeapTop + 7) & ~7ull;
    memset(gShadow + off, 1, size);
    if (kind != 3) memset(gArena + off, 0xA5, std::min<uint64_t>(size, 4096));
    gBlocks.push_back({off, size, 1, kind, (uint32_t)gBlocks.size() + 1});
    if (kind < 2) ++gLive;
    return gArena + off;
}

// ------------------------------------------------------------------------------------------------ values
struct Val { uint64_t c; Expr* e; };
static ExprMgr M;
static Solver S(M);
static Shared* SH = nullptr;

static inline Val C(uint64_t v) { return Val{v, nullptr}; }
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Expr* E(const Val& v, unsigned w) { return v.e ? v.e : M.cst(v.c, w); }
static inline Val mkv(Expr* e) { if (e->k == K::Const && e->w <= 64) return C((uint64_t)e->cv); return Val{0, e}; }
static inline bool isConc(const Val& v) { return !v.e || v.e->k == K::Const; }
static inline u128 cval(const Val& v) { return v.e ? v.e->cv : (u128)v.c; }

// symbolic bytes
struct Gran { Expr* b[8]; uint8_t n; };
static std::unordered_map<uint64_t, Gran> gSym;
static const unsigned kFiltBits = 18;
static uint32_t* gFilt;                      // counters
static inline uint32_t fslot(uint64_t g) { return (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - kFiltBits)); }
static inline bool maybeSymG(uint64_t g) { return gFilt[fslot(g)] != 0; }
static inline bool maybeSym(uint64_t a, uint64_t n)
{
    if (gSym.empty()) return false;
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) if (maybeSymG(g)) return true;
    return false;
}
static Expr* symByte(uint64_t a)
{
    uint64_t g = a >> 3;
    if (!maybeSymG(g)) return nullptr;
    auto it = gSym.find(g);
    return it == gSym.end() ? nullptr : it->second.b[a & 7];
}
static void setByte(uint64_t a, Expr* e)      // nullptr or Const: concrete (value written by the caller for nullptr)
{
    uint64_t g = a >> 3;
    if (e && e->k == K::Const) { *(uint8_t*)a = (uint8_t)e->cv; e = nullptr; }
    if (!e) {
        if (!maybeSymG(g)) return;
        auto it = gSym.find(g);
        if (it == gSym.end() || !it->second.b[a & 7]) return;
        it->second.b[a & 7] = nullptr;
        if (--it->second.n == 0) { gSym.erase(it); gFilt[fslot(g)]--; }
        return;
    }
    auto it = gSym.find(g);
    if (it == gSym.end()) { it = gSym.emplace(g, Gran{}).first; gFilt[fslot(g)]++; }
    if (!it->second.b[a & 7]) it->second.n++;
    it->second.b[a & 7] = e;
    *(uint8_t*)a = (uint8_t)M.eval(e);
}
static bool anySym(uint64_t a, uint64_t n)
{
    if (!n || !maybeSym(a, n)) return false;
    for (uint64_t i = 0; i < n; ++i) if (symByte(a + i)) return true;
    return false;
}
static void clearSym(uint64_t a, uint64_t n)
{
    if (!n || gSym.empty()) return;
    if (n > 4096) { for (auto it = gSym.begin(); it != gSym.end();) { uint64_t g = it->first; ++it; for (int i = 0; i < 8; ++i) { uint64_t x = g * 8 + i; if (x >= a && x < a + n) { setByte(x, nullptr); } } if (gSym.empty()) break; } return; }
    if (!maybeSym(a, n)) return;
    for (uint64_t i = 0; i < n; ++i) setByte(a + i, nullptr);
}
static void materialize() { for (auto& [g, gr] : gSym) for (int i = 0; i < 8; ++i) if (gr.b[i]) *(uint8_t*)(g * 8 + i) = (uint8_t)M.eval(gr.b[i]); }

// ------------------------------------------------------------------------------------------------ decoded code
enum Op : uint8_t {
    OBin, OICmp, OFBin, OFCmp, OFNeg, OLoad, OStore, OGep, OTrunc, OZExt, OSExt, OCopy, OSelect, OBr, OCondBr, OSwitch, OCall, OInvoke, ORet, OUnreachable,
    OResume, OLandingPad, OAlloca, OCmpXchg, ORMW, OFToSI, OFToUI, OSIToF, OUIToF, OFToF, OExtractElt, OInsertElt, OUnsup, ONop, OCov
};
struct Leaf { uint32_t off; uint16_t w; };
struct TypeInfo { std::vector<Leaf> leaves; uint64_t size; };
struct Edge { uint32_t target = 0; std::vector<std::pair<int, int>> copies; std::vector<std::pair<BasicBlock*, BasicBlock*>> pend; };
struct DFunc;
struct CallInfo {
    Function* direct = nullptr;
    int callee = 0;               // operand when indirect
    std::vector<int> args;        // flattened operands
    std::vector<uint16_t> widths;
    std::vector<uint8_t> isF;     // floating point
    std::vector<uint8_t> argCount;// leaves per IR arg
    TypeInfo* ret = nullptr;
    bool retF[4] = {false, false, false, false};
    int normal = -1, unwind = -1; // edges
    int fixedArgs = -1;           // for varargs
    int intr = 0;
    H h = H::None;
    void* nat = nullptr;
    std::string name;
    DFunc* dcache = nullptr;
    std::vector<uint64_t> byval;  // byval size per IR arg (0: none)
};
struct DInst { uint8_t op; uint8_t k; uint16_t w; int32_t dst, a, b, c; uint64_t x; void* p; const Instruction* I; };
struct LPad { bool cleanup; struct Cl { bool filter; uint64_t ti; }; std::vector<Cl> cl; };
struct GepInfo { std::vector<std::tuple<int, uint16_t, int64_t>> idx; int64_t off; };
struct SwitchInfo { int w; int def; std::vector<std::pair<u128, int>> cases; std::unordered_map<uint64_t, int> map; };
struct DFunc {
    Function* F;
    std::vector<DInst> code;
    std::vector<Edge> edges;
    std::map<BasicBlock*, uint32_t> bbpc;
    uint32_t nslots = 0;
    std::vector<uint32_t> argSlot;   // slot of each flattened arg
    bool repo = false;
};

static Module* Mod;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;
static std::unordered_map<uint64_t, Function*> gFnAt;
static std::unordered_map<Function*, DFunc*> gDF;
static std::vector<Val> gConst;
static std::unordered_map<const Constant*, int> gConstIdx;
static std::unordered_map<Type*, TypeInfo*> gTI;
static std::set<std::string> gTlsNames;
struct Tls { const GlobalVariable* g; uint64_t addr, size; std::vector<uint8_t> init; std::map<int, uint64_t> copy; };
static std::map<uint64_t, Tls> gTls;
static std::vector<const BasicBlock*> gCovBB;   // cov index -> block
static std::unordered_map<const BasicBlock*, uint32_t> gCovIdx;

static unsigned scalarW(Type* t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isHalfTy()) return 16;
    return 0;
}
static void leavesOf(Type* t, uint64_t off, std::vector<Leaf>& out)
{
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) leavesOf(s->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); ++i) leavesOf(a->getElementType(), off + i * es, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeStoreSize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); ++i) leavesOf(v->getElementType(), off + i * es, out);
    } else if (t->isVoidTy()) {
    } else out.push_back({(uint32_t)off, (uint16_t)scalarW(t)});
}
static TypeInfo* TI(Type* t)
{
    auto& p = gTI[t];
    if (!p) { p = new TypeInfo; leavesOf(t, 0, p->leaves); p->size = t->isSized() ? (uint64_t)DL->getTypeStoreSize(t) : 0; }
    return p;
}
static unsigned flatIndex(Type* t, ArrayRef<unsigned> idx, Type** sub)
{
    unsigned n = 0;
    for (unsigned i : idx) {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) n += TI(s->getElementType(j))->leaves.size(); t = s->getElementType(i); }
        else { auto* a = cast<ArrayType>(t); n += i * TI(a->getElementType())->leaves.size(); t = a->getElementType(); }
    }
    *sub = t;
    return n;
}

[[noreturn]] static void endPath(int code);
[[noreturn]] static void incomplete(const std::string& why);
static void violation(const std::string& key);

static uint64_t gvAddr(const GlobalValue* g)
{
    if (auto* a = dyn_cast<GlobalAlias>(g)) { if (auto* o = a->getAliaseeObject()) return gvAddr(o); }
    auto it = gAddr.find(g);
    if (it == gAddr.end()) { fprintf(stderr, "symx: no address for %s\n", g->getName().str().c_str()); return 0; }
    return it->second;
}
static u128 cscalar(const Constant* c, bool* ok)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) { auto& v = ci->getValue(); u128 r = v.getRawData()[0]; if (v.getNumWords() > 1) r |= (u128)v.getRawData()[1] << 64; return r; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); u128 r = v.getRawData()[0]; if (v.getNumWords() > 1) r |= (u128)v.getRawData()[1] << 64; return r; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return gvAddr(g);
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return gvAddr(d->getGlobalValue());
    if (auto* nc = dyn_cast<NoCFIValue>(c)) return gvAddr(nc->getGlobalValue());
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        unsigned w = scalarW(e->getType());
        switch (e->getOpcode()) {
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return cscalar(e->getOperand(0), ok);
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return cscalar(e->getOperand(0), ok) & maskw(w);
            case Instruction::ZExt: return cscalar(e->getOperand(0), ok);
            case Instruction::SExt: return (u128)sextv(cscalar(e->getOperand(0), ok), scalarW(e->getOperand(0)->getType())) & maskw(w);
            case Instruction::GetElementPtr: {
                auto* g = cast<GEPOperator>(e);
                APInt off(64, 0);
                if (!g->accumulateConstantOffset(*DL, off)) { *ok = false; return 0; }
                return (cscalar(e->getOperand(0), ok) + off.getSExtValue()) & maskw(64);
            }
            case Instruction::Add: return foldBin(K::Add, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::Sub: return foldBin(K::Sub, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::And: return foldBin(K::And, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::Or: return foldBin(K::Or, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::Xor: return foldBin(K::Xor, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::Mul: return foldBin(K::Mul, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::Shl: return foldBin(K::Shl, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::LShr: return foldBin(K::LShr, cscalar(e->getOperand(0), ok), cscalar(e->getOperand(1), ok), w);
            case Instruction::ICmp: {
                u128 a = cscalar(e->getOperand(0), ok), b = cscalar(e->getOperand(1), ok);
                auto p = cast<ConstantExpr>(e)->getPredicate();
                if (p == CmpInst::ICMP_EQ) return a == b;
                if (p == CmpInst::ICMP_NE) return a != b;
                if (p == CmpInst::ICMP_ULT) return a < b;
                if (p == CmpInst::ICMP_UGT) return a > b;
                *ok = false; return 0;
            }
            default: *ok = false; return 0;
        }
    }
    *ok = false;
    return 0;
}
static void cflat(const Constant* c, std::vector<Val>& out, bool* ok)
{
    Type* t = c->getType();
    if (!t->isAggregateType() && !t->isVectorTy()) {
        u128 v = cscalar(c, ok);
        unsigned w = scalarW(t);
        if (w > 64) out.push_back(Val{0, M.cst(v, w)}); else out.push_back(C((uint64_t)v));
        return;
    }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) {
        Constant* el = c->getAggregateElement(i);
        if (!el) { *ok = false; return; }
        cflat(el, out, ok);
    }
}
static int constIdx(const Constant* c)
{
    auto it = gConstIdx.find(c);
    if (it != gConstIdx.end()) return it->second;
    bool ok = true;
    std::vector<Val> v;
    cflat(c, v, &ok);
    if (!ok) { std::string s; raw_string_ostream os(s); c->print(os); incomplete("unsupported constant " + s.substr(0, 100)); }
    int idx = -(int)gConst.size() - 1;
    for (auto& x : v) gConst.push_back(x);
    if (v.empty()) gConst.push_back(C(0));
    gConstIdx[c] = idx;
    return idx;
}
// operand "idx + n-th leaf": slots grow upwards, constants downwards
static inline int leafOp(int op, unsigned n) { return op >= 0 ? op + (int)n : op - (int)n; }

static bool isRepoFile(StringRef dir, StringRef f)
{
    std::string s = f.starts_with("/") ? f.str() : (dir + "/" + f).str();
    return s.find("/repo/fairmq/") != std::string::npos;
}
static bool repoLoc(const DILocation* L)
{
    for (; L; L = L->getInlinedAt()) if (auto* sp = L->getScope()->getSubprogram()) if (isRepoFile(sp->getDirectory(), sp->getFilename())) return true;
    return false;
}

struct Decoder {
    Function& F; DFunc* D;
    std::unordered_map<const Value*, int> slot;
    int op(Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constIdx(c);
        auto it = slot.find(v);
        if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constIdx(ConstantInt::get(Type::getInt64Ty(Mod->getContext()), 0)); fprintf(stderr, "symx: no slot\n"); abort(); }
        return it->second;
    }
    int edge(BasicBlock* from, BasicBlock* to)
    {
        Edge e;
        for (auto& phi : to->phis()) {
            Value* in = phi.getIncomingValueForBlock(from);
            unsigned n = TI(phi.getType())->leaves.size();
            if (isa<UndefValue>(in)) { }
            int s = op(in), d = slot[&phi];
            for (unsigned i = 0; i < n; ++i) e.copies.push_back({d + (int)i, leafOp(s, i)});
        }
        e.pend.push_back({from, to});
        D->edges.push_back(std::move(e));
        return D->edges.size() - 1;
    }
    DInst& add(uint8_t o, Instruction& I) { D->code.push_back(DInst{o, 0, 0, -1, 0, 0, 0, 0, nullptr, &I}); return D->code.back(); }
    void copyN(Instruction& I, int dst, int src, unsigned n) { for (unsigned i = 0; i < n; ++i) { auto& d = add(OCopy, I); d.dst = dst + i; d.a = leafOp(src, i); } }
    void run();
    void inst(Instruction& I);
    void call(CallBase& I);
};

static void* natSym(const std::string& n)
{
    static std::unordered_map<std::string, void*> c;
    auto it = c.find(n);
    if (it != c.end()) return it->second;
    void* p = dlsym(RTLD_DEFAULT, n.c_str());
    return c[n] = p;
}

void Decoder::call(CallBase& I)
{
    auto* ci = new CallInfo;
    Value* cv = I.getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) if (auto* o = al->getAliaseeObject()) cv = o;
    if (auto* ia = dyn_cast<InlineAsm>(cv)) { ci->name = "asm:" + ia->getAsmString(); ci->intr = -2; }
    else if (auto* f = dyn_cast<Function>(cv)) {
        ci->direct = f; ci->name = f->getName().str();
        if (f->isIntrinsic()) ci->intr = f->getIntrinsicID();
        else if (f->isDeclaration()) { auto it = interceptTable().find(ci->name); if (it != interceptTable().end()) ci->h = it->second; }
    } else ci->callee = op(I.getCalledOperand());
    if (ci->intr > 0 && (isa<DbgInfoIntrinsic>(I) || ci->intr == Intrinsic::lifetime_start || ci->intr == Intrinsic::lifetime_end || ci->intr == Intrinsic::assume
        || ci->intr == Intrinsic::experimental_noalias_scope_decl || ci->intr == Intrinsic::donothing || ci->intr == Intrinsic::sideeffect || ci->intr == Intrinsic::prefetch || ci->intr == Intrinsic::invariant_end)) { delete ci; if (auto* inv = dyn_cast<InvokeInst>(&I)) { auto& d = add(OBr, I); d.x = edge(I.getParent(), inv->getNormalDest()); } return; }
    unsigned an = 0;
    for (auto& a : I.args()) {
        Type* t = a->getType();
        if (t->isMetadataTy()) { ci->argCount.push_back(0); ci->byval.push_back(0); ++an; continue; }
        int o = op(a);
        auto* ti = TI(t);
        ci->argCount.push_back(ti->leaves.size());
        ci->byval.push_back(I.isByValArgument(an) ? (uint64_t)DL->getTypeAllocSize(I.getParamByValType(an)) : 0);
        for (unsigned i = 0; i < ti->leaves.size(); ++i) { ci->args.push_back(leafOp(o, i)); ci->widths.push_back(ti->leaves[i].w); ci->isF.push_back(t->isFloatingPointTy() || (t->isVectorTy() && cast<VectorType>(t)->getElementType()->isFloatingPointTy())); }
        ++an;
    }
    auto* FT = I.getFunctionType();
    if (FT->isVarArg()) ci->fixedArgs = FT->getNumParams();
    ci->ret = TI(I.getType());
    if (I.getType()->isFloatingPointTy()) ci->retF[0] = true;
    if (auto* st = dyn_cast<StructType>(I.getType())) for (unsigned i = 0; i < st->getNumElements() && i < 4; ++i) ci->retF[i] = st->getElementType(i)->isFloatingPointTy();
    auto& d = add(isa<InvokeInst>(I) ? OInvoke : OCall, I);
    d.p = ci;
    d.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
    size_t self = D->code.size() - 1;
    if (auto* inv = dyn_cast<InvokeInst>(&I)) {
        ci->normal = edge(I.getParent(), inv->getNormalDest());
        ci->unwind = edge(I.getParent(), inv->getUnwindDest());
    }
    (void)self;
}

void Decoder::inst(Instruction& I)
{
    Type* T = I.getType();
    unsigned n = T->isVoidTy() ? 0 : TI(T)->leaves.size();
    int dst = T->isVoidTy() ? -1 : slot[&I];
    auto W = [&](Value* v) { auto* ti = TI(v->getType()); return ti->leaves.empty() ? 0u : (unsigned)ti->leaves[0].w; };
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
        int x = op(b->getOperand(0)), y = op(b->getOperand(1));
        for (unsigned i = 0; i < n; ++i) {
            bool fl = T->getScalarType()->isFloatingPointTy();
            auto& d = add(fl ? OFBin : OBin, I);
            K k;
            switch (b->getOpcode()) {
                case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break;
                case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break;
                case Instruction::SRem: k = K::SRem; break; case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break;
                case Instruction::Xor: k = K::Xor; break; case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break;
                case Instruction::AShr: k = K::AShr; break; case Instruction::FAdd: k = K::FAdd; break; case Instruction::FSub: k = K::FSub; break;
                case Instruction::FMul: k = K::FMul; break; case Instruction::FDiv: k = K::FDiv; break;
                default: d.op = OUnsup; k = K::Add; break;
            }
            d.k = (uint8_t)k; d.w = TI(T)->leaves[i].w; d.dst = dst + i; d.a = leafOp(x, i); d.b = leafOp(y, i);
            if (fl && d.w > 64) d.op = OUnsup;
        }
        return;
    }
    switch (I.getOpcode()) {
        case Instruction::FNeg: { int x = op(I.getOperand(0)); for (unsigned i = 0; i < n; ++i) { auto& d = add(OFNeg, I); d.w = TI(T)->leaves[i].w; d.dst = dst + i; d.a = leafOp(x, i); } return; }
        case Instruction::ICmp: case Instruction::FCmp: {
            auto* c = cast<CmpInst>(&I);
            int x = op(c->getOperand(0)), y = op(c->getOperand(1));
            for (unsigned i = 0; i < n; ++i) { auto& d = add(I.getOpcode() == Instruction::ICmp ? OICmp : OFCmp, I); d.k = c->getPredicate(); d.w = W(c->getOperand(0)); d.dst = dst + i; d.a = leafOp(x, i); d.b = leafOp(y, i); }
            return;
        }
        case Instruction::Load: { auto& d = add(OLoad, I); d.dst = dst; d.a = op(cast<LoadInst>(I).getPointerOperand()); d.p = TI(T); d.x = n; if (n == 1) d.w = TI(T)->leaves[0].w; if (n == 1 && cast<LoadInst>(I).isAtomic()) d.k = 1; return; }
        case Instruction::Store: {
            auto& st = cast<StoreInst>(I);
            int v = op(st.getValueOperand()), p = op(st.getPointerOperand());
            auto& d = add(OStore, I); d.a = v; d.b = p; d.p = TI(st.getValueOperand()->getType()); d.x = TI(st.getValueOperand()->getType())->leaves.size(); if (d.x == 1) d.w = ((TypeInfo*)d.p)->leaves[0].w; if (d.x == 1 && st.isAtomic()) d.k = 1; return;
        }
        case Instruction::GetElementPtr: {
            if (T->isVectorTy()) { add(OUnsup, I); return; }
            auto* g = new GepInfo; g->off = 0;
            for (gep_type_iterator it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
                Value* ix = it.getOperand();
                if (auto* st = it.getStructTypeOrNull()) { g->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* cI = dyn_cast<ConstantInt>(ix)) { g->off += sz * cI->getSExtValue(); continue; }
                g->idx.push_back({op(ix), (uint16_t)W(ix), sz});
            }
            auto& d = add(OGep, I); d.dst = dst; d.a = op(I.getOperand(0)); d.p = g; return;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
            int x = op(I.getOperand(0));
            for (unsigned i = 0; i < n; ++i) { auto& d = add(I.getOpcode() == Instruction::Trunc ? OTrunc : I.getOpcode() == Instruction::ZExt ? OZExt : OSExt, I); d.dst = dst + i; d.a = leafOp(x, i); d.w = TI(T)->leaves[i].w; d.x = W(I.getOperand(0)); }
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            unsigned sw = W(I.getOperand(0)), dw = TI(T)->leaves[0].w;
            auto& d = add(dw < sw ? OTrunc : dw > sw ? OZExt : OCopy, I); d.dst = dst; d.a = op(I.getOperand(0)); d.w = dw; d.x = sw; return;
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
            auto* st = TI(I.getOperand(0)->getType());
            if (st->leaves.size() == n && (n == 0 || st->leaves[0].w == TI(T)->leaves[0].w)) { copyN(I, dst, op(I.getOperand(0)), n); return; }
            auto& d = add(ONop, I); d.k = 1; d.dst = dst; d.a = op(I.getOperand(0)); d.p = st; d.x = (uint64_t)TI(T); return;   // re-chunking bitcast
        }
        case Instruction::Select: {
            int c = op(I.getOperand(0)), x = op(I.getOperand(1)), y = op(I.getOperand(2));
            bool vc = I.getOperand(0)->getType()->isVectorTy();
            for (unsigned i = 0; i < n; ++i) { auto& d = add(OSelect, I); d.dst = dst + i; d.w = TI(T)->leaves[i].w; d.a = vc ? leafOp(c, i) : c; d.b = leafOp(x, i); d.c = leafOp(y, i); }
            return;
        }
        case Instruction::PHI: return;
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isUnconditional()) { int e = edge(I.getParent(), b.getSuccessor(0)); auto& d = add(OBr, I); d.x = e; return; }
            int e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1));
            auto& d = add(OCondBr, I); d.a = op(b.getCondition()); d.b = e1; d.c = e2; return;
        }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            auto* si = new SwitchInfo; si->w = W(s.getCondition()); si->def = edge(I.getParent(), s.getDefaultDest());
            for (auto& c : s.cases()) { bool ok = true; u128 v = cscalar(c.getCaseValue(), &ok); int e = edge(I.getParent(), c.getCaseSuccessor()); si->cases.push_back({v, e}); si->map[(uint64_t)v] = e; }
            auto& d = add(OSwitch, I); d.a = op(s.getCondition()); d.p = si; return;
        }
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
        case Instruction::Ret: { auto& r = cast<ReturnInst>(I); auto& d = add(ORet, I); d.x = 0; if (r.getReturnValue()) { d.a = op(r.getReturnValue()); d.x = TI(r.getReturnValue()->getType())->leaves.size(); } return; }
        case Instruction::Unreachable: add(OUnreachable, I); return;
        case Instruction::Resume: { auto& d = add(OResume, I); d.a = op(I.getOperand(0)); return; }
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I);
            auto* p = new LPad; p->cleanup = lp.isCleanup();
            for (unsigned i = 0; i < lp.getNumClauses(); ++i) {
                bool ok = true;
                if (lp.isCatch(i)) p->cl.push_back({false, (uint64_t)cscalar(lp.getClause(i), &ok)});
                else p->cl.push_back({true, 0});
            }
            auto& d = add(OLandingPad, I); d.dst = dst; d.p = p; return;
        }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            auto& d = add(OAlloca, I); d.dst = dst; d.x = DL->getTypeAllocSize(a.getAllocatedType()); d.a = op(a.getArraySize()); d.w = std::max<uint64_t>(a.getAlign().value(), 8); d.c = W(a.getArraySize()); return;
        }
        case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(I); Type* sub; unsigned f = flatIndex(ev.getAggregateOperand()->getType(), ev.getIndices(), &sub); copyN(I, dst, leafOp(op(ev.getAggregateOperand()), f), n); return; }
        case Instruction::InsertValue: {
            auto& iv = cast<InsertValueInst>(I); Type* sub; unsigned f = flatIndex(T, iv.getIndices(), &sub);
            unsigned m = TI(sub)->leaves.size();
            int a = op(iv.getAggregateOperand()), v = op(iv.getInsertedValueOperand());
            for (unsigned i = 0; i < n; ++i) { auto& d = add(OCopy, I); d.dst = dst + i; d.a = (i >= f && i < f + m) ? leafOp(v, i - f) : leafOp(a, i); }
            return;
        }
        case Instruction::ExtractElement: { auto& d = add(OExtractElt, I); d.dst = dst; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.x = TI(I.getOperand(0)->getType())->leaves.size(); return; }
        case Instruction::InsertElement: { auto& d = add(OInsertElt, I); d.dst = dst; d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.c = op(I.getOperand(2)); d.x = n; return; }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            unsigned m = TI(sv.getOperand(0)->getType())->leaves.size();
            int a = op(sv.getOperand(0)), b = op(sv.getOperand(1));
            for (unsigned i = 0; i < n; ++i) { int k = sv.getMaskValue(i); auto& d = add(OCopy, I); d.dst = dst + i; d.a = k < 0 ? leafOp(a, 0) : k < (int)m ? leafOp(a, k) : leafOp(b, k - m); }
            return;
        }
        case Instruction::AtomicCmpXchg: { auto& x = cast<AtomicCmpXchgInst>(I); int p = op(x.getPointerOperand()), c = op(x.getCompareOperand()), nv = op(x.getNewValOperand()); auto& d = add(OCmpXchg, I); d.dst = dst; d.a = p; d.b = c; d.c = nv; d.w = W(x.getNewValOperand()); return; }
        case Instruction::AtomicRMW: { auto& x = cast<AtomicRMWInst>(I); int p = op(x.getPointerOperand()), v = op(x.getValOperand()); auto& d = add(ORMW, I); d.dst = dst; d.a = p; d.b = v; d.w = W(x.getValOperand()); d.k = x.getOperation(); return; }
        case Instruction::Fence: add(ONop, I); return;
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
            int x = op(I.getOperand(0));
            for (unsigned i = 0; i < n; ++i) {
                uint8_t o = I.getOpcode() == Instruction::FPToSI ? OFToSI : I.getOpcode() == Instruction::FPToUI ? OFToUI : I.getOpcode() == Instruction::SIToFP ? OSIToF : I.getOpcode() == Instruction::UIToFP ? OUIToF : OFToF;
                auto& d = add(o, I); d.dst = dst + i; d.a = leafOp(x, i); d.w = TI(T)->leaves[i].w; d.x = W(I.getOperand(0));
                if (d.w == 80 || d.x == 80 || d.w == 16) d.op = OUnsup;
            }
            return;
        }
        default: add(OUnsup, I); return;
    }
}

void Decoder::run()
{
    uint32_t s = 0;
    for (auto& a : F.args()) { slot[&a] = s; for (unsigned i = 0; i < TI(a.getType())->leaves.size(); ++i) D->argSlot.push_back(s++); }
    for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { slot[&I] = s; s += std::max<size_t>(1, TI(I.getType())->leaves.size()); }
    D->nslots = s;
    for (auto& B : F) {
        D->bbpc[&B] = D->code.size();
        auto it = gCovIdx.find(&B);
        if (it != gCovIdx.end()) { auto& d = add(OCov, B.front()); d.x = it->second; }
        for (auto& I : B) inst(I);
    }
    for (auto& e : D->edges) e.target = D->bbpc[e.pend[0].second];
}

static DFunc* decode(Function* F)
{
    auto it = gDF.find(F);
    if (it != gDF.end()) return it->second;
    auto* D = new DFunc; D->F = F;
    if (auto* sp = F->getSubprogram()) D->repo = isRepoFile(sp->getDirectory(), sp->getFilename());
    gDF[F] = D;
    Decoder{*F, D, {}}.run();
    return D;
}

#include "exec.inc"
#include "main.inc"
