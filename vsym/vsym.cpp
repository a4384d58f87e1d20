// vsym: symbolic executor for LLVM bitcode (path forking, flat byte memory, z3 back end).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <deque>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
using namespace llvm;
typedef std::string str; typedef int32_t s32;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c = 0; Expr* e = nullptr; };
static inline Val CV(u64 c) { Val v; v.c = c; return v; }
static inline Val EV(Expr* e) { Val v; if (e->k == K_CONST) v.c = e->c; else v.e = e; return v; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ memory
enum { PGB = 10, PG = 1 << PGB, CHB = 8, CHN = 1 << CHB };
struct Page { int rc; u8 d[PG]; u8 v[PG]; Expr** s; };
struct Chunk { int rc; Page* p[CHN]; };
struct Mem { std::vector<Chunk*> dir;
  Mem() {}
  Mem(const Mem& o) : dir(o.dir) { for (auto c : dir) if (c) c->rc++; }
  ~Mem() { for (auto c : dir) rel(c); }
  Mem& operator=(const Mem&) = delete;
  static void relp(Page* p) { if (p && --p->rc == 0) { delete[] p->s; delete p; } }
  static void rel(Chunk* c) { if (c && --c->rc == 0) { for (auto p : c->p) relp(p); delete c; } }
  Page* rd(u64 a) const { u64 i = a >> (PGB + CHB); if (i >= dir.size() || !dir[i]) return nullptr; return dir[i]->p[(a >> PGB) & (CHN - 1)]; }
  Page* wr(u64 a) { u64 i = a >> (PGB + CHB); if (i >= dir.size()) { if (i > 1u << 16) return nullptr; dir.resize(i + 1); }
    Chunk*& c = dir[i]; if (!c) { c = new Chunk(); memset(c, 0, sizeof *c); c->rc = 1; } else if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto p : n->p) if (p) p->rc++; c->rc--; c = n; }
    Page*& p = c->p[(a >> PGB) & (CHN - 1)]; if (!p) { p = new Page(); p->rc = 1; p->s = nullptr; memset(p->d, 0, PG); memset(p->v, 0, PG); }
    else if (p->rc > 1) { Page* n = new Page(*p); n->rc = 1; if (p->s) { n->s = new Expr*[PG]; memcpy(n->s, p->s, PG * sizeof(Expr*)); } p->rc--; p = n; }
    return p; }
};
// ------------------------------------------------------------------ code
enum Op : u16 { O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_ICMP, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_SELECT,
  O_LOAD, O_STORE, O_GEPC, O_GEPI, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_CALLI, O_INTR, O_FBIN, O_FNEG, O_FCMP, O_FPCONV, O_UNREACH, O_MEMCPY, O_MEMSET, O_VASTART, O_VACOPY, O_NOP, O_UNSUP,
  O_MINMAX, O_ABS, O_BITOP, O_OVF, O_FSH, O_FABS, O_STACKSAVE, O_STACKRESTORE, O_FSQRT, O_FMULADD, O_SAT, O_ISCLASS };
struct Edge { int target; std::vector<std::pair<int, int>> moves; };
struct Inst { Op op; u8 w = 0, w2 = 0; u16 sub = 0; int dst = -1, a = 0, b = 0, c = 0; u64 imm = 0; void* x = nullptr; int line = 0; };
struct SwitchTab { std::vector<std::pair<u64, Edge*>> cases; Edge* def; };
struct CallInfo { std::vector<int> args; std::vector<u8> size; std::vector<u32> byval; struct Func* f = nullptr; int nret = 0; int ncallee = 0; };
struct Func { str name; Function* lf; std::vector<Inst> code; std::vector<Val> consts; int nregs = 0, nargs = 0; bool vararg = false, decoded = false, real = false; u64 calls = 0; u64 addr = 0; int intr = -1; std::vector<int> argRegs; str file; };
struct Frame { Func* f; int pc; u32 base; int retDst; u64 sp0; u64 va; int catchDst; };
struct SymRec { Expr* e; u64 conc; str name; u8 w; };
struct State { std::vector<Val> regs; std::vector<Frame> fr; Mem mem; u64 sp = 0, heap = 0; std::vector<Expr*> cons; Model model; std::vector<Val> ph; std::vector<SymRec> syms; std::map<str, int> symCount; u64 steps = 0; int depth = 0; std::set<u32> covers; int nextRet = 0; };

static LLVMContext LC; static Module* M; static const DataLayout* DL; static unsigned PW, PB;
static std::map<Function*, Func*> funcs; static std::map<u64, Func*> funcByAddr; static std::map<GlobalVariable*, u64> gaddr;
static u64 G_BASE, ST_BASE, ST_SIZE, H_BASE, H_END;
static std::vector<State*> work; static std::map<str, s64> params;
static double t_start, g_maxTime = 1e9; static u64 g_maxPaths = ~0ull, g_maxSteps = 400000000ull; static int g_jobs = 1, g_maxViol = 10; static u64 g_split = 64;
struct Viol { str kind, msg, loc; std::vector<SymRec> syms; std::vector<u64> vals; };
static std::vector<Viol> viols; static std::set<str> violMsgs;
static u64 n_paths, n_forks, n_asserts, n_assertsSolver, n_assertsUnk, n_steps, n_killed, n_assumeKill, n_branchUnk, n_states; static std::map<str, u64> coverCount; static std::map<str, u64> assertCount; static std::vector<str> errors; static std::vector<std::string> samples; static bool incomplete;
static std::map<str, Expr*> symCache; static std::vector<str> coverNames; static std::map<str, u32> coverIdx;

static void addErr(const str& s) { for (auto& e : errors) if (e == s) return; if (errors.size() < 50) errors.push_back(s); }

// ------------------------------------------------------------------ decode
struct Decoder {
  Func* F; std::map<const Value*, int> reg; std::map<u64, int> cpool; std::map<BasicBlock*, int> bbStart; std::vector<std::pair<Edge*, BasicBlock*>> fix; int nr = 0;
  static int nleaf(Type* t) { if (t->isVoidTy()) return 0; if (auto s = dyn_cast<StructType>(t)) { int n = 0; for (auto e : s->elements()) n += nleaf(e); return n; } if (auto a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nleaf(a->getElementType()); return 1; }
  static unsigned width(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return PW; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  static void leaves(Type* t, u64 off, std::vector<std::pair<u64, Type*>>& out) {
    if (auto s = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out); return; }
    out.push_back({off, t}); }
  int konst(u64 v) { auto it = cpool.find(v); if (it != cpool.end()) return ~it->second; int i = F->consts.size(); F->consts.push_back(CV(v)); cpool[v] = i; return ~i; }
  static u64 cval(const Constant* c) {
    if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().getRawData()[0]; return ci->getZExtValue(); }
    if (auto cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getRawData()[0];
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto f = dyn_cast<Function>(c)) return funcs[const_cast<Function*>(f)]->addr;
    if (auto g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(const_cast<GlobalVariable*>(g)); if (it == gaddr.end()) { errs() << "no address for global " << g->getName() << "\n"; exit(3); } return it->second; }
    if (auto a = dyn_cast<GlobalAlias>(c)) return cval(a->getAliasee());
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = width(ce->getType());
      auto o = [&](int i) { return cval(cast<Constant>(ce->getOperand(i))); };
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(DL->getIndexSizeInBits(0), 0); auto gep = cast<GEPOperator>(ce); if (gep->accumulateConstantOffset(*DL, off)) return (o(0) + off.getSExtValue()) & mask(PW); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return o(0);
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return o(0) & mask(w);
      case Instruction::SExt: return (u64)sx(o(0), width(ce->getOperand(0)->getType())) & mask(w);
      case Instruction::Add: return (o(0) + o(1)) & mask(w); case Instruction::Sub: return (o(0) - o(1)) & mask(w); case Instruction::Mul: return (o(0) * o(1)) & mask(w);
      case Instruction::And: return o(0) & o(1); case Instruction::Or: return o(0) | o(1); case Instruction::Xor: return o(0) ^ o(1);
      case Instruction::LShr: return o(0) >> o(1); case Instruction::Shl: return (o(0) << o(1)) & mask(w);
      case Instruction::Select: return o(0) ? o(1) : o(2);
      case Instruction::ICmp: { u64 x = o(0), y = o(1); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_UGT: return x > y; default: break; } break; }
      }
    }
    errs() << "unsupported constant: " << *c << "\n"; exit(3);
  }
  int opnd(const Value* v, int leaf = 0) {
    if (auto c = dyn_cast<Constant>(v)) {
      if (c->getType()->isAggregateType()) { std::vector<int> out; aggr(c, out); return out[leaf]; }
      return konst(cval(c)); }
    auto it = reg.find(v); if (it == reg.end()) { errs() << "no reg for " << *v << "\n"; exit(3); }
    return it->second + leaf;
  }
  void aggr(const Constant* c, std::vector<int>& out) {
    Type* t = c->getType();
    if (!t->isAggregateType()) { out.push_back(konst(cval(c))); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nleaf(t); for (int i = 0; i < n; i++) out.push_back(konst(0)); return; }
    for (unsigned i = 0; ; i++) { Constant* e = c->getAggregateElement(i); if (!e) break; aggr(e, out); }
  }
  int alloc(const Value* v) { int n = nleaf(v->getType()); int r = nr; nr += n; reg[v] = r; return r; }
  static int leafIndex(Type* t, ArrayRef<unsigned> idx) { int r = 0; for (unsigned i : idx) { if (auto s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nleaf(s->getElementType(k)); t = s->getElementType(i); } else { auto a = cast<ArrayType>(t); r += i * nleaf(a->getElementType()); t = a->getElementType(); } } return r; }
  Edge* edge(BasicBlock* from, BasicBlock* to) { Edge* e = new Edge(); fix.push_back({e, to}); for (auto& p : to->phis()) { Value* v = p.getIncomingValueForBlock(from); int n = nleaf(p.getType()); for (int i = 0; i < n; i++) { int s = opnd(v, i); int d = reg[&p] + i; if (s != d) e->moves.push_back({d, s}); } } return e; }
  void run() {
    Function* f = F->lf;
    for (auto& a : f->args()) { F->argRegs.push_back(alloc(&a)); }
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) alloc(&i);
    for (auto& bb : *f) { bbStart[&bb] = F->code.size(); for (auto& i : bb) { if (isa<PHINode>(i)) continue; size_t s0 = F->code.size(); ins(i); int line = i.getDebugLoc() ? i.getDebugLoc().getLine() : 0; for (; s0 < F->code.size(); s0++) F->code[s0].line = line; } }
    for (auto& p : fix) p.first->target = bbStart[p.second];
    F->nregs = nr; F->decoded = true;
  }
  Inst& emit(Op op) { F->code.push_back(Inst()); F->code.back().op = op; return F->code.back(); }
  void unsup(Instruction& i) { str s; raw_string_ostream os(s); os << F->name << ": " << i; auto& n = emit(O_UNSUP); n.x = new str(os.str()); }
  void ins(Instruction& i) {
    int dst = i.getType()->isVoidTy() ? -1 : reg[&i];
    unsigned w = width(i.getType());
    if (auto bo = dyn_cast<BinaryOperator>(&i)) {
      static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}};
      static const std::map<unsigned, u8> fm = {{Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB}, {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}, {Instruction::FRem, K_FREM}};
      if (!w || w > 64) return unsup(i);
      auto it = m.find(bo->getOpcode());
      int a = opnd(i.getOperand(0)), b = opnd(i.getOperand(1));
      if (it != m.end()) { auto& n = emit(it->second); n.dst = dst; n.w = w; n.a = a; n.b = b; }
      else { auto& n = emit(O_FBIN); n.sub = fm.at(bo->getOpcode()); n.dst = dst; n.w = w; n.a = a; n.b = b; }
      return;
    }
    switch (i.getOpcode()) {
    case Instruction::FNeg: { int a = opnd(i.getOperand(0)); auto& n = emit(O_FNEG); n.dst = dst; n.w = w; n.a = a; return; }
    case Instruction::ICmp: { auto c = cast<ICmpInst>(&i); unsigned ow = width(c->getOperand(0)->getType()); if (!ow || ow > 64) return unsup(i); int a = opnd(i.getOperand(0)), b = opnd(i.getOperand(1)); auto& n = emit(O_ICMP); n.sub = c->getPredicate(); n.dst = dst; n.w = ow; n.a = a; n.b = b; return; }
    case Instruction::FCmp: { auto c = cast<FCmpInst>(&i); unsigned ow = width(c->getOperand(0)->getType()); if (!ow) return unsup(i); int a = opnd(i.getOperand(0)), b = opnd(i.getOperand(1)); auto& n = emit(O_FCMP); n.sub = c->getPredicate(); n.dst = dst; n.w = ow; n.a = a; n.b = b; return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
      Type* st = i.getOperand(0)->getType(); if (isa<FreezeInst>(i) && nleaf(st) != 1) { int n0 = nleaf(st); for (int k = 0; k < n0; k++) { int a = opnd(i.getOperand(0), k); auto& n = emit(O_MOV); n.dst = dst + k; n.a = a; } return; }
      unsigned sw = width(st); if (!w || !sw || w > 64 || sw > 64) return unsup(i); int a = opnd(i.getOperand(0));
      auto& n = emit(i.getOpcode() == Instruction::SExt ? O_SEXT : w < sw ? O_TRUNC : w > sw ? O_ZEXT : O_MOV); n.dst = dst; n.w = w; n.w2 = sw; n.a = a; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      unsigned sw = width(i.getOperand(0)->getType()); if (!w || !sw || w > 64 || sw > 64) return unsup(i); int a = opnd(i.getOperand(0)); auto& n = emit(O_FPCONV); n.dst = dst; n.w = w; n.w2 = sw; n.a = a;
      n.sub = i.getOpcode() == Instruction::FPToSI ? K_FP2SI : i.getOpcode() == Instruction::FPToUI ? K_FP2UI : i.getOpcode() == Instruction::SIToFP ? K_SI2FP : i.getOpcode() == Instruction::UIToFP ? K_UI2FP : i.getOpcode() == Instruction::FPExt ? K_FPEXT : K_FPTRUNC; return; }
    case Instruction::Select: { int n0 = nleaf(i.getType()); std::vector<std::pair<u64, Type*>> lv; leaves(i.getType(), 0, lv); for (int k = 0; k < n0; k++) { unsigned lw = width(lv[k].second); if (!lw || lw > 64) return unsup(i); int a = opnd(i.getOperand(0)), b = opnd(i.getOperand(1), k), c = opnd(i.getOperand(2), k); auto& n = emit(O_SELECT); n.sub = lv[k].second->isPointerTy(); n.dst = dst + k; n.w = lw; n.a = a; n.b = b; n.c = c; } return; }
    case Instruction::Load: { std::vector<std::pair<u64, Type*>> lv; leaves(i.getType(), 0, lv); int p = opnd(i.getOperand(0));
      for (size_t k = 0; k < lv.size(); k++) { unsigned lw = width(lv[k].second); if (!lw || lw > 64) return unsup(i); auto& n = emit(O_LOAD); n.dst = dst + k; n.w = lw; n.w2 = DL->getTypeStoreSize(lv[k].second); n.a = p; n.imm = lv[k].first; } return; }
    case Instruction::Store: { Value* v = i.getOperand(0); std::vector<std::pair<u64, Type*>> lv; leaves(v->getType(), 0, lv); int p = opnd(i.getOperand(1));
      for (size_t k = 0; k < lv.size(); k++) { unsigned lw = width(lv[k].second); if (!lw || lw > 64) return unsup(i); int a = opnd(v, k); auto& n = emit(O_STORE); n.w = lw; n.w2 = DL->getTypeStoreSize(lv[k].second); n.a = p; n.b = a; n.imm = lv[k].first; } return; }
    case Instruction::GetElementPtr: {
      auto gep = cast<GetElementPtrInst>(&i); u64 off = 0; std::vector<std::pair<Value*, u64>> vars; 
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
        if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
        u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto ci = dyn_cast<ConstantInt>(gi.getOperand())) off += (u64)ci->getSExtValue() * sc; else vars.push_back({gi.getOperand(), sc}); }
      int a = opnd(gep->getPointerOperand()); { auto& n = emit(O_GEPC); n.dst = dst; n.a = a; n.imm = off & mask(PW); }
      for (auto& v : vars) { int b = opnd(v.first); auto& n = emit(O_GEPI); n.dst = dst; n.a = dst; n.b = b; n.w2 = width(v.first->getType()); n.imm = v.second; }
      return; }
    case Instruction::Alloca: { auto ai = cast<AllocaInst>(&i); u64 es = DL->getTypeAllocSize(ai->getAllocatedType()); int a = opnd(ai->getArraySize()); auto& n = emit(O_ALLOCA); n.dst = dst; n.imm = es; n.a = a; n.w2 = width(ai->getArraySize()->getType()); n.c = ai->getAlign().value(); n.sub = 0; const Function* pf = ai->getFunction(); if (pf->isVarArg() && pf->arg_size()) for (auto* u : ai->users()) if (auto* st = dyn_cast<StoreInst>(u)) if (st->getPointerOperand() == ai && st->getValueOperand() == pf->getArg(pf->arg_size() - 1)) n.sub = 1; return; }
    case Instruction::Br: { auto b = cast<BranchInst>(&i); if (b->isUnconditional()) { Edge* e = edge(i.getParent(), b->getSuccessor(0)); auto& n = emit(O_BR); n.x = e; } else { int c = opnd(b->getCondition()); Edge* e = edge(i.getParent(), b->getSuccessor(0)); Edge* e2 = edge(i.getParent(), b->getSuccessor(1)); auto& n = emit(O_CBR); n.a = c; auto pr = new std::pair<Edge*, Edge*>(e, e2); n.x = pr; } return; }
    case Instruction::Switch: { auto s = cast<SwitchInst>(&i); unsigned cw = width(s->getCondition()->getType()); if (cw > 64) return unsup(i); SwitchTab* t = new SwitchTab(); t->def = edge(i.getParent(), s->getDefaultDest()); for (auto& c : s->cases()) t->cases.push_back({c.getCaseValue()->getZExtValue(), edge(i.getParent(), c.getCaseSuccessor())}); int a = opnd(s->getCondition()); auto& n = emit(O_SWITCH); n.a = a; n.w = cw; n.x = t; return; }
    case Instruction::Ret: { auto r = cast<ReturnInst>(&i); if (!r->getReturnValue()) { emit(O_RET); } else { int n0 = nleaf(r->getReturnValue()->getType()); CallInfo* ci = new CallInfo(); for (int k = 0; k < n0; k++) ci->args.push_back(opnd(r->getReturnValue(), k)); auto& n = emit(O_RET); n.x = ci; n.c = n0; } return; }
    case Instruction::Unreachable: emit(O_UNREACH); return;
    case Instruction::ExtractValue: { auto ev = cast<ExtractValueInst>(&i); int li = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); int n0 = nleaf(i.getType()); for (int k = 0; k < n0; k++) { int a = opnd(ev->getAggregateOperand(), li + k); auto& n = emit(O_MOV); n.dst = dst + k; n.a = a; } return; }
    case Instruction::InsertValue: { auto iv = cast<InsertValueInst>(&i); int n0 = nleaf(i.getType()), li = leafIndex(i.getType(), iv->getIndices()), n1 = nleaf(iv->getInsertedValueOperand()->getType()); for (int k = 0; k < n0; k++) { int a = (k >= li && k < li + n1) ? opnd(iv->getInsertedValueOperand(), k - li) : opnd(iv->getAggregateOperand(), k); auto& n = emit(O_MOV); n.dst = dst + k; n.a = a; } return; }
    case Instruction::Call: return call(cast<CallInst>(i), dst, w);
    }
    unsup(i);
  }
  void call(CallInst& c, int dst, unsigned w) {
    Function* cf = c.getCalledFunction();
    if (!cf) if (auto f2 = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())) cf = f2;
    auto A = [&](int k) { return opnd(c.getArgOperand(k)); };
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::donothing: case Intrinsic::prefetch: return;
      case Intrinsic::expect: { int a = A(0); auto& n = emit(O_MOV); n.dst = dst; n.a = a; return; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { int a = A(0), b = A(1), l = A(2); auto& n = emit(O_MEMCPY); n.a = a; n.b = b; n.c = l; n.w2 = width(c.getArgOperand(2)->getType()); return; }
      case Intrinsic::memset: { int a = A(0), b = A(1), l = A(2); auto& n = emit(O_MEMSET); n.a = a; n.b = b; n.c = l; n.w2 = width(c.getArgOperand(2)->getType()); return; }
      case Intrinsic::vastart: { int a = A(0); auto& n = emit(O_VASTART); n.a = a; return; }
      case Intrinsic::vacopy: { int a = A(0), b = A(1); auto& n = emit(O_VACOPY); n.a = a; n.b = b; return; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { int a = A(0), b = A(1); auto& n = emit(O_MINMAX); n.sub = cf->getIntrinsicID() == Intrinsic::umin ? 0 : cf->getIntrinsicID() == Intrinsic::umax ? 1 : cf->getIntrinsicID() == Intrinsic::smin ? 2 : 3; n.dst = dst; n.w = w; n.a = a; n.b = b; return; }
      case Intrinsic::abs: { int a = A(0); auto& n = emit(O_ABS); n.dst = dst; n.w = w; n.a = a; return; }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::bitreverse: { int a = A(0); auto& n = emit(O_BITOP); n.sub = cf->getIntrinsicID() == Intrinsic::ctlz ? 0 : cf->getIntrinsicID() == Intrinsic::cttz ? 1 : cf->getIntrinsicID() == Intrinsic::ctpop ? 2 : cf->getIntrinsicID() == Intrinsic::bswap ? 3 : 4; n.dst = dst; n.w = w; n.a = a; return; }
      case Intrinsic::fshl: case Intrinsic::fshr: { int a = A(0), b = A(1), s = A(2); auto& n = emit(O_FSH); n.sub = cf->getIntrinsicID() == Intrinsic::fshr; n.dst = dst; n.w = w; n.a = a; n.b = b; n.c = s; return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned ow = width(c.getArgOperand(0)->getType()); int a = A(0), b = A(1); auto& n = emit(O_OVF); n.dst = dst; n.w = ow; n.a = a; n.b = b; auto id = cf->getIntrinsicID(); n.sub = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::uadd_with_overflow ? 1 : id == Intrinsic::ssub_with_overflow ? 2 : id == Intrinsic::usub_with_overflow ? 3 : id == Intrinsic::smul_with_overflow ? 4 : 5; return; }
      case Intrinsic::usub_sat: case Intrinsic::uadd_sat: { int a = A(0), b = A(1); auto& n = emit(O_SAT); n.sub = cf->getIntrinsicID() == Intrinsic::uadd_sat; n.dst = dst; n.w = w; n.a = a; n.b = b; return; }
      case Intrinsic::fabs: { int a = A(0); auto& n = emit(O_FABS); n.dst = dst; n.w = w; n.a = a; return; }
      case Intrinsic::sqrt: { int a = A(0); auto& n = emit(O_FSQRT); n.dst = dst; n.w = w; n.a = a; return; }
      case Intrinsic::is_fpclass: { int a = A(0); auto& n = emit(O_ISCLASS); n.dst = dst; n.w = width(c.getArgOperand(0)->getType()); n.a = a; n.imm = cast<ConstantInt>(c.getArgOperand(1))->getZExtValue(); return; }
      case Intrinsic::fmuladd: case Intrinsic::fma: { int a = A(0), b = A(1), s = A(2); auto& n = emit(O_FMULADD); n.dst = dst; n.w = w; n.a = a; n.b = b; n.c = s; return; }
      case Intrinsic::stacksave: { auto& n = emit(O_STACKSAVE); n.dst = dst; return; }
      case Intrinsic::stackrestore: { int a = A(0); auto& n = emit(O_STACKRESTORE); n.a = a; return; }
      case Intrinsic::objectsize: { int k = konst(~0ull & mask(w)); auto& n = emit(O_MOV); n.dst = dst; n.a = k; return; }
      case Intrinsic::is_constant: { int k = konst(0); auto& n = emit(O_MOV); n.dst = dst; n.a = k; return; }
      case Intrinsic::trap: case Intrinsic::debugtrap: emit(O_UNREACH); return;
      default: return unsup(c);
      }
    }
    if (c.isInlineAsm()) return unsup(c);
    CallInfo* ci = new CallInfo();
    for (unsigned k = 0; k < c.arg_size(); k++) {
      Type* t = c.getArgOperand(k)->getType(); int n0 = nleaf(t);
      for (int j = 0; j < n0; j++) { ci->args.push_back(opnd(c.getArgOperand(k), j)); std::vector<std::pair<u64, Type*>> lv; leaves(t, 0, lv); ci->size.push_back(std::max<u64>(DL->getTypeStoreSize(lv[j].second), 1)); ci->byval.push_back(c.isByValArgument(k) ? DL->getTypeAllocSize(c.getParamByValType(k)) : 0); }
    }
    ci->nret = nleaf(c.getType());
    if (cf) { ci->f = funcs[cf]; auto& n = emit(ci->f->intr >= 0 ? O_INTR : O_CALL); n.dst = dst; n.w = w; n.x = ci; n.sub = ci->f->intr >= 0 ? ci->f->intr : 0; }
    else { int a = opnd(c.getCalledOperand()); auto& n = emit(O_CALLI); n.a = a; n.dst = dst; n.w = w; n.x = ci; }
  }
};

// ------------------------------------------------------------------ execution
enum IntrId { I_U8, I_U16, I_U32, I_U64, I_RANGE, I_CHOICE, I_ASSUME, I_ASSERT, I_COVER, I_ISSYM, I_PHNEW, I_PHGET, I_ALLOC, I_FREE, I_CATCH, I_THROW, I_LOG, I_PARAM, I_STOP, I_CONC, I_ITE, I_POISON, I_UNPOISON, I_SAMPLE, I_SHOW, I_F32, I_VALID, I_ISFEAS, I_PHSET, I_SETJMP, I_LONGJMP };
static const std::map<str, int> intrNames = {{"vs_u8", I_U8}, {"vs_u16", I_U16}, {"vs_u32", I_U32}, {"vs_u64", I_U64}, {"vs_range", I_RANGE}, {"vs_choice", I_CHOICE}, {"vs_assume", I_ASSUME}, {"vs_assert", I_ASSERT}, {"vs_cover", I_COVER}, {"vs_is_symbolic", I_ISSYM}, {"vs_ph_new", I_PHNEW}, {"vs_ph_get", I_PHGET}, {"vs_alloc", I_ALLOC}, {"vs_free", I_FREE}, {"vs_catch", I_CATCH}, {"vs_throw", I_THROW}, {"vs_log", I_LOG}, {"vs_param", I_PARAM}, {"vs_stop", I_STOP}, {"vs_concretize", I_CONC}, {"vs_ite", I_ITE}, {"vs_poison", I_POISON}, {"vs_unpoison", I_UNPOISON}, {"vs_sample", I_SAMPLE}, {"vs_show", I_SHOW}, {"vs_valid", I_VALID}, {"vs_feasible", I_ISFEAS}, {"setjmp", I_SETJMP}, {"_setjmp", I_SETJMP}, {"longjmp", I_LONGJMP}};

struct Kill { };
static State* S; // current state

static str loc(State& s) { str r; for (int i = (int)s.fr.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) { auto& f = s.fr[i]; char b[32]; int pc = f.pc; if (pc >= 0 && pc < (int)f.f->code.size()) snprintf(b, sizeof b, ":%d", f.f->code[pc].line); else b[0] = 0; if (n) r += " < "; r += f.f->name + b; } return r; }

static u64 ev1(Expr* e, Model& m) { newEval(); return evalExpr(e, m); }

static std::vector<Viol> witn; static u64 g_nextW = 1; static unsigned g_maxW = 0;
static void pathDone(State& s) { n_paths++; if (witn.size() < g_maxW && n_paths >= g_nextW) { g_nextW = n_paths * 3; Viol v; v.kind = "path"; v.syms = s.syms; newEval(); for (auto& y : s.syms) v.vals.push_back(y.e ? evalExpr(y.e, s.model) : y.conc); witn.push_back(v); } }
static void violation(State& s, const str& kind, const str& msg, Model& m) {
  if (violMsgs.count(msg) || (int)viols.size() >= g_maxViol) return;
  violMsgs.insert(msg);
  Viol v; v.kind = kind; v.msg = msg; v.loc = loc(s); v.syms = s.syms; newEval(); for (auto& r : s.syms) v.vals.push_back(r.e ? evalExpr(r.e, m) : r.conc);
  viols.push_back(v);
}
static void bug(State& s, const str& kind, const str& msg) { violation(s, kind, msg + " at " + loc(s), s.model); n_killed++; throw Kill(); }

// Add a constraint known to be satisfiable with the state's constraints.
static void addCons(State& s, Expr* c) {
  if (isC(c)) { if (!c->c) { n_assumeKill++; throw Kill(); } return; }
  if (c->k == K_AND) { addCons(s, c->a); addCons(s, c->b); return; }
  s.cons.push_back(c);
}
// decide a condition: 0 always false, 1 always true, 2 both. mt/mf: models.
static int decide(State& s, Expr* c, Model& other, bool& vm) {
  if (isC(c)) return c->c;
  for (auto k : s.cons) { if (k == c) return 1; if (k->k == K_XOR && k->a == c && k->w == 1) return 0; }
  Expr* nc = mkNot(c);
  for (auto k : s.cons) if (k == nc) return 0;
  vm = ev1(c, s.model);
  other = s.model;
  Res r = solve(s.cons, vm ? nc : c, other);
  if (r == UNSAT) return vm;
  if (r == UNKNOWN) { n_branchUnk++; incomplete = true; addCons(s, vm ? c : nc); return vm; } // other side not explored: reported as incomplete
  return 2;
}
static bool g_prof; static std::map<str, u64> forkAt, stepAt;
static State* forkState(State& s) { if (g_prof) forkAt[loc(s)]++; State* n = new State(s); n->depth++; n_forks++; return n; }
static void push(State* n) { work.push_back(n); }

// Branch on condition for the current instruction; the other side is queued with `setup` applied by re-executing the same instruction.
static bool branchRe(State& s, Expr* c) {
  Model o; bool vm = false; int d = decide(s, c, o, vm);
  if (d != 2) return d;
  State* n = forkState(s); n->model = o; n->cons.push_back(vm ? mkNot(c) : c); s.cons.push_back(vm ? c : mkNot(c)); push(n); return vm;
}
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = ev1(v.e, s.model);
  Expr* eq = mk(K_EQ, 1, v.e, mkConst(x, w));
  branchRe(s, eq); // model satisfies eq, so this side takes eq
  return x;
}
// raw byte access
static inline bool validR(State& s, u64 a, unsigned n) { for (unsigned i = 0; i < n; i++) { Page* p = s.mem.rd(a + i); if (!p || !p->v[(a + i) & (PG - 1)]) return false; } return true; }
static bool validW(State& s, u64 a, unsigned n) { for (unsigned i = 0; i < n; i++) { Page* p = s.mem.rd(a + i); if (!p || p->v[(a + i) & (PG - 1)] != 1) return false; } return true; }
static void memErr(State& s, const char* what, u64 a, unsigned n) { char b[160]; snprintf(b, sizeof b, "invalid memory %s of %u bytes", what, n); char b2[64]; snprintf(b2, sizeof b2, " (address 0x%llx)", (unsigned long long)a); (void)b2; bug(s, "memory", b); }
static Val loadC(State& s, u64 a, unsigned n, unsigned w) {
  u64 off = a & (PG - 1); Page* p = s.mem.rd(a);
  if (p && off + n <= PG) {
    u64 vv = 0; memcpy(&vv, p->v + off, n); bool ok = true; for (unsigned i = 0; i < n; i++) if (!p->v[off + i]) { ok = false; break; }
    if (!ok) memErr(s, "read", a, n);
    if (!p->s) { u64 r = 0; memcpy(&r, p->d + off, n); return CV(r & mask(w)); }
    Expr** ps = p->s + off; bool any = false; for (unsigned i = 0; i < n; i++) if (ps[i]) { any = true; break; }
    if (!any) { u64 r = 0; memcpy(&r, p->d + off, n); return CV(r & mask(w)); }
    Expr* e = ps[0] ? ps[0] : mkConst(p->d[off], 8);
    for (unsigned i = 1; i < n; i++) e = mkConcat(ps[i] ? ps[i] : mkConst(p->d[off + i], 8), e);
    return EV(w < n * 8 ? mkExtract(e, 0, w) : e);
  }
  if (!validR(s, a, n)) memErr(s, "read", a, n);
  Expr* e = nullptr;
  for (unsigned i = 0; i < n; i++) { Page* q = s.mem.rd(a + i); u64 o = (a + i) & (PG - 1); Expr* b = q->s && q->s[o] ? q->s[o] : mkConst(q->d[o], 8); e = e ? mkConcat(b, e) : b; }
  return EV(w < n * 8 ? mkExtract(e, 0, w) : e);
}
static void setByte(Page* p, u64 off, Expr* e) {
  if (e->k == K_CONST) { p->d[off] = (u8)e->c; if (p->s) p->s[off] = nullptr; return; }
  if (!p->s) { p->s = new Expr*[PG]; memset(p->s, 0, PG * sizeof(Expr*)); }
  p->s[off] = e;
}
static void storeC(State& s, u64 a, const Val& v, unsigned n, unsigned w) {
  u64 off = a & (PG - 1);
  if (!v.e && off + n <= PG) {
    Page* p = s.mem.rd(a); if (!p) memErr(s, "write", a, n);
    for (unsigned i = 0; i < n; i++) if (p->v[off + i] != 1) memErr(s, "write", a, n);
    p = s.mem.wr(a); memcpy(p->d + off, &v.c, n); if (p->s) for (unsigned i = 0; i < n; i++) p->s[off + i] = nullptr; return;
  }
  if (!validW(s, a, n)) memErr(s, "write", a, n);
  Expr* e = X(v, w); if (w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Page* p = s.mem.wr(a + i); setByte(p, (a + i) & (PG - 1), mkExtract(e, i * 8, 8)); }
}
// resolve a symbolic address into candidate concrete addresses inside one object
static void resolve(State& s, Expr* a, unsigned n, bool wr, std::vector<u64>& c) {
  u64 v0 = ev1(a, s.model);
  if (!(wr ? validW(s, v0, n) : validR(s, v0, n))) memErr(s, wr ? "write" : "read", v0, n);
  u64 lo = v0, hi = v0 + n; u64 lim = 1 << 17;
  auto ok = [&](u64 x) { Page* p = s.mem.rd(x); return p && (wr ? p->v[x & (PG - 1)] == 1 : p->v[x & (PG - 1)] != 0); };
  while (v0 - lo < lim && lo > 0 && lo > a->lo && ok(lo - 1)) lo--;
  u64 hmax = a->hi + n; if (hmax < n) hmax = ~0ull;
  while (hi - v0 < lim && hi < hmax && ok(hi)) hi++;
  // may it point outside [lo, hi-n]?
  Expr* in = mk(K_AND, 1, mk(K_ULE, 1, mkConst(lo, PW), a), mk(K_ULE, 1, a, mkConst(hi - n, PW)));
  if (!branchRe(s, in)) { fprintf(stderr, "resolve: model inconsistency\n"); incomplete = true; throw Kill(); }
  u64 l = std::max(lo, a->lo), h = std::min(hi - n, a->hi);
  auto cnt = [&](std::vector<u64>& out, size_t max) { out.clear(); for (u64 x = l; x <= h; x++) { if ((x & a->kz) || (a->ko & ~x)) continue; out.push_back(x); if (out.size() > max) return false; } return true; };
  if (cnt(c, 48)) return;
  // tighten with the solver
  auto feas = [&](Expr* q) { Model m = s.model; return solve(s.cons, q, m) != UNSAT; };
  u64 L = l, H = v0; while (L < H) { u64 mid = L + (H - L) / 2; if (feas(mk(K_ULE, 1, a, mkConst(mid, PW)))) H = mid; else L = mid + 1; } l = L;
  L = v0; H = h; while (L < H) { u64 mid = L + (H - L + 1) / 2; if (feas(mk(K_ULE, 1, mkConst(mid, PW), a))) L = mid; else H = mid - 1; } h = L;
  if (cnt(c, 4096)) return;
  c.clear(); u64 x = v0; branchRe(s, mk(K_EQ, 1, a, mkConst(x, PW))); c.push_back(x);
}
static Expr* tree(Expr* a, std::vector<u64>& c, std::vector<Expr*>& v, size_t l, size_t h) { if (h - l == 1) return v[l]; bool same = true; for (size_t i = l + 1; i < h; i++) if (v[i] != v[l]) { same = false; break; } if (same) return v[l]; size_t m = (l + h) / 2; return mkIte(mk(K_ULT, 1, a, mkConst(c[m], PW)), tree(a, c, v, l, m), tree(a, c, v, m, h)); }
static Val load(State& s, const Val& a, u64 off, unsigned n, unsigned w) {
  if (!a.e) return loadC(s, (a.c + off) & mask(PW), n, w);
  Expr* ad = off ? mk(K_ADD, PW, a.e, mkConst(off, PW)) : a.e;
  if (isC(ad)) return loadC(s, ad->c, n, w);
  std::vector<u64> c; resolve(s, ad, n, false, c);
  std::vector<Expr*> v; for (u64 x : c) v.push_back(X(loadC(s, x, n, w), w));
  u64 base = c[0]; for (auto& x : c) x -= base; Expr* rel = mkRel(ad, base); if (rel->k == K_ZEXT || rel->w != PW) rel = mkZExt(rel, PW);
  return EV(tree(rel, c, v, 0, c.size()));
}
static void store(State& s, const Val& a, u64 off, const Val& v, unsigned n, unsigned w) {
  if (!a.e) { storeC(s, (a.c + off) & mask(PW), v, n, w); return; }
  Expr* ad = off ? mk(K_ADD, PW, a.e, mkConst(off, PW)) : a.e;
  if (isC(ad)) { storeC(s, ad->c, v, n, w); return; }
  std::vector<u64> c; resolve(s, ad, n, true, c);
  if (c.size() == 1) { storeC(s, c[0], v, n, w); return; }
  Expr* e = X(v, w); if (w < n * 8) e = mkZExt(e, n * 8);
  std::map<u64, Expr*> upd;
  for (u64 x : c) { Expr* eq = mk(K_EQ, 1, ad, mkConst(x, PW)); for (unsigned i = 0; i < n; i++) { u64 b = x + i; auto it = upd.find(b); Expr* old; if (it != upd.end()) old = it->second; else { Page* q = s.mem.rd(b); u64 o = b & (PG - 1); old = q->s && q->s[o] ? q->s[o] : mkConst(q->d[o], 8); } upd[b] = mkIte(eq, mkExtract(e, i * 8, 8), old); } }
  for (auto& p : upd) setByte(s.mem.wr(p.first), p.first & (PG - 1), p.second);
}
static void setValid(State& s, u64 a, u64 n, u8 v) { for (u64 i = 0; i < n;) { Page* p = s.mem.wr(a + i); u64 o = (a + i) & (PG - 1); u64 k = std::min<u64>(PG - o, n - i); if (!p) { addErr("address space exhausted"); incomplete = true; throw Kill(); } memset(p->v + o, v, k); if (v == 0) { if (p->s) memset(p->s + o, 0, k * sizeof(Expr*)); } i += k; } }
static u64 stackAlloc(State& s, u64 size, u64 align) {
  if (align < 16 && PW > 16) align = 16; u64 red = PW == 16 ? 2 : 16; s.sp = (s.sp + red + align - 1) & ~(align - 1); u64 a = s.sp; if (a + size > ST_BASE + ST_SIZE) bug(s, "memory", "stack overflow (unbounded recursion?)");
  for (u64 i = 0; i < size;) { Page* p = s.mem.wr(a + i); u64 o = (a + i) & (PG - 1); u64 k = std::min<u64>(PG - o, size - i); memset(p->v + o, 1, k); memset(p->d + o, 0xCC, k); if (p->s) memset(p->s + o, 0, k * sizeof(Expr*)); i += k; }
  s.sp += size; return a; }
static str cstr(State& s, const Val& p, size_t max = 2000) { str r; u64 a = p.e ? ev1(p.e, s.model) : p.c; for (size_t i = 0; i < max; i++) { if (!validR(s, a + i, 1)) break; Val v = loadC(s, a + i, 1, 8); u64 c = v.e ? (ev1(v.e, s.model)) : v.c; if (!c) break; r += (char)c; } return r; }

static void enter(State& s, Func* f, const std::vector<Val>& args, const CallInfo* ci, int retDst, int catchDst) {
  if (!f->lf || f->lf->isDeclaration()) { addErr("call to undefined function " + f->name); incomplete = true; n_killed++; throw Kill(); }
  if (!f->decoded) { Decoder d; d.F = f; d.run(); }
  f->calls++;
  if (s.fr.size() > 4000) bug(s, "memory", "call depth exceeded");
  Frame fr; fr.f = f; fr.pc = 0; fr.base = s.regs.size(); fr.retDst = retDst; fr.sp0 = s.sp; fr.va = 0; fr.catchDst = catchDst;
  int na = f->argRegs.size(); size_t nfix = 0; // leaves of fixed args
  s.regs.resize(fr.base + f->nregs);
  for (int i = 0; i < na; i++) { int n = Decoder::nleaf(f->lf->getArg(i)->getType()); for (int k = 0; k < n; k++, nfix++) { if (nfix >= args.size()) continue; Val v = args[nfix]; if (ci && nfix < ci->byval.size() && ci->byval[nfix]) { u64 sz = ci->byval[nfix]; u64 d = stackAlloc(s, sz, 8); u64 sa = concretize(s, v, PW); for (u64 q = 0; q < sz; q++) storeC(s, d + q, loadC(s, sa + q, 1, 8), 1, 8); v = CV(d); } s.regs[fr.base + f->argRegs[i] + k] = v; } }
  if (f->vararg) {
    unsigned slot = PB; u64 tot = 0; std::vector<u64> offs; for (size_t i = nfix; i < args.size(); i++) { unsigned sz = ci->byval[i] ? ci->byval[i] : ci->size[i]; offs.push_back(tot); tot += (sz + slot - 1) / slot * slot; }
    u64 a = stackAlloc(s, tot + 8 + PB, 8) + PB; fr.va = a; /* the slot below holds the last named argument, as in cdecl */
    for (size_t i = nfix; i < args.size(); i++) { u64 d = a + offs[i - nfix]; if (ci->byval[i]) { u64 sa = concretize(s, args[i], PW); for (u64 q = 0; q < ci->byval[i]; q++) storeC(s, d + q, loadC(s, sa + q, 1, 8), 1, 8); } else storeC(s, d, args[i], ci->size[i], ci->size[i] * 8); }
  }
  s.fr.push_back(fr);
}
static void popFrame(State& s) { Frame& f = s.fr.back(); if (s.sp > f.sp0) setValid(s, f.sp0, s.sp - f.sp0, 0); s.sp = f.sp0; s.regs.resize(f.base); s.fr.pop_back(); }

static Val bin(u8 k, unsigned w, const Val& a, const Val& b) { return EV(mk(k, w, X(a, w), X(b, w))); }
static Expr* icmp(unsigned p, Expr* a, Expr* b) {
  switch (p) { case CmpInst::ICMP_EQ: return mk(K_EQ, 1, a, b); case CmpInst::ICMP_NE: return mkNot(mk(K_EQ, 1, a, b));
  case CmpInst::ICMP_ULT: return mk(K_ULT, 1, a, b); case CmpInst::ICMP_ULE: return mk(K_ULE, 1, a, b); case CmpInst::ICMP_UGT: return mk(K_ULT, 1, b, a); case CmpInst::ICMP_UGE: return mk(K_ULE, 1, b, a);
  case CmpInst::ICMP_SLT: return mk(K_SLT, 1, a, b); case CmpInst::ICMP_SLE: return mk(K_SLE, 1, a, b); case CmpInst::ICMP_SGT: return mk(K_SLT, 1, b, a); default: return mk(K_SLE, 1, b, a); } }
static inline bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
  case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); default: return sx(a, w) >= sx(b, w); } }

static Expr* fcmp(unsigned p, Expr* a, Expr* b) {
  Expr* u = mk(K_FUNO, 1, a, b); auto o = [&](Expr* x) { return x; };
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
  case CmpInst::FCMP_OEQ: return mk(K_FEQ, 1, a, b); case CmpInst::FCMP_OLT: return mk(K_FLT, 1, a, b); case CmpInst::FCMP_OLE: return mk(K_FLE, 1, a, b); case CmpInst::FCMP_OGT: return mk(K_FLT, 1, b, a); case CmpInst::FCMP_OGE: return mk(K_FLE, 1, b, a);
  case CmpInst::FCMP_ONE: return mk(K_AND, 1, mkNot(u), mkNot(mk(K_FEQ, 1, a, b))); case CmpInst::FCMP_ORD: return mkNot(u); case CmpInst::FCMP_UNO: return o(u);
  case CmpInst::FCMP_UEQ: return mk(K_OR, 1, u, mk(K_FEQ, 1, a, b)); case CmpInst::FCMP_UNE: return mkNot(mk(K_FEQ, 1, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mk(K_FLE, 1, b, a)); case CmpInst::FCMP_ULE: return mkNot(mk(K_FLT, 1, b, a)); case CmpInst::FCMP_UGT: return mkNot(mk(K_FLE, 1, a, b)); default: return mkNot(mk(K_FLT, 1, a, b)); } }

static std::vector<u64> g_fix; static bool g_hasFix = false;
static bool fixedVal(State& s, const str& nm, unsigned w, Val& v) { if (!g_hasFix) return false; if (s.syms.size() >= g_fix.size()) { fprintf(stderr, "replay: out of values at %s\n", nm.c_str()); throw Kill(); } v = CV(g_fix[s.syms.size()] & mask(w)); s.syms.push_back({nullptr, v.c, nm, (u8)w}); return true; }
static Val makeSym(State& s, const str& name, unsigned w, u64 lo, u64 hi) {
  int k = s.symCount[name]++; str key = name + "#" + std::to_string(k) + ":" + std::to_string(w) + ":" + std::to_string(lo) + ":" + std::to_string(hi);
  Expr*& e = symCache[key];
  if (!e) { unsigned n = hi ? 64 - __builtin_clzll(hi) : 1; e = mkZExt(mkVar(name + (k ? "#" + std::to_string(k) : ""), n < w ? n : w, lo, hi), w); }
  return EV(e);
}

// returns true if the result was produced and pc should advance
static void intrinsic(State& s, Inst& I, const std::vector<Val>& a, CallInfo* ci, Val* R) {
  auto setR = [&](Val v) { if (I.dst >= 0) s.regs[s.fr.back().base + I.dst] = v; };
  (void)R;
  switch (I.sub) {
  case I_U8: case I_U16: case I_U32: case I_U64: { unsigned w = I.sub == I_U8 ? 8 : I.sub == I_U16 ? 16 : I.sub == I_U32 ? 32 : 64; str nm = cstr(s, a[0]); Val fv; if (fixedVal(s, nm, w, fv)) { setR(fv); break; } Val v = makeSym(s, nm, w, 0, mask(w)); s.syms.push_back({v.e, 0, nm, (u8)w}); setR(v); break; }
  case I_RANGE: { u64 lo = concretize(s, a[0], 32), hi = concretize(s, a[1], 32); str nm = cstr(s, a[2]); Val fv; if (fixedVal(s, nm, I.w, fv)) { setR(fv); break; } if (lo == hi) { s.syms.push_back({nullptr, lo, nm, I.w}); setR(CV(lo)); break; }
      // use only as many bits as needed so that known-bit analysis is sharp
      Val v = makeSym(s, nm, I.w, lo, hi); s.syms.push_back({v.e, 0, nm, I.w}); setR(v); break; }
  case I_CHOICE: { // fork into all values, depth-first in increasing order
      u64 n = concretize(s, a[0], 32); str nm = cstr(s, a[1]); if (n == 0) { n_assumeKill++; throw Kill(); }
      Val fv; if (fixedVal(s, nm, 32, fv)) { setR(fv); break; }
      auto pit = params.find("choice:" + nm);
      if (pit != params.end()) { if ((u64)pit->second >= n) { n_assumeKill++; throw Kill(); } s.syms.push_back({nullptr, (u64)pit->second, nm, 32}); setR(CV(pit->second)); break; }
      for (u64 i = n - 1; i >= 1; i--) { State* t = forkState(s); t->regs[t->fr.back().base + I.dst] = CV(i); t->syms.push_back({nullptr, i, nm, 32}); t->fr.back().pc++; push(t); }
      s.syms.push_back({nullptr, 0, nm, 32}); setR(CV(0)); break; }
  case I_ASSUME: { if (!a[0].e) { if (!(a[0].c & mask(32))) { n_assumeKill++; throw Kill(); } break; } Expr* c = mkNot(mk(K_EQ, 1, a[0].e, mkConst(0, a[0].e->w))); if (isC(c)) { if (!c->c) { n_assumeKill++; throw Kill(); } break; }
      if (!ev1(c, s.model)) { Model m = s.model; Res r = solve(s.cons, c, m); if (r == UNSAT) { n_assumeKill++; throw Kill(); } if (r == UNKNOWN) { incomplete = true; n_branchUnk++; throw Kill(); } s.model = m; }
      addCons(s, c); break; }
  case I_ASSERT: { str msg = cstr(s, a[1]); n_asserts++; assertCount[msg.substr(0, 60)]++;
      if (!a[0].e) { if (!(a[0].c & mask(32))) { violation(s, "assert", msg, s.model); n_killed++; throw Kill(); } break; }
      Expr* c = mkNot(mk(K_EQ, 1, a[0].e, mkConst(0, a[0].e->w))); if (isC(c)) { if (!c->c) { violation(s, "assert", msg, s.model); n_killed++; throw Kill(); } break; }
      n_assertsSolver++;
      if (!ev1(c, s.model)) { violation(s, "assert", msg, s.model); Model m = s.model; if (solve(s.cons, c, m) != SAT) { n_killed++; throw Kill(); } s.model = m; addCons(s, c); break; }
      Model m = s.model; Res r = solve(s.cons, mkNot(c), m, true);
      if (r == SAT) { violation(s, "assert", msg, m); addCons(s, c); } else if (r == UNKNOWN) { n_assertsUnk++; incomplete = true; addErr("assertion not decided: " + msg + " at " + loc(s) + (getenv("VSYM_EXPR") ? " " + estr(c, 14) : "")); }
      break; }
  case I_COVER: coverCount[cstr(s, a[0])]++; break;
  case I_ISSYM: setR(CV(a[0].e != nullptr)); break;
  case I_PHNEW: s.ph.push_back(a[0]); setR(CV(s.ph.size() - 1)); break;
  case I_PHGET: { u64 i = concretize(s, a[0], 32); if (i >= s.ph.size()) bug(s, "harness", "bad placeholder"); setR(s.ph[i]); break; }
  case I_ALLOC: { u64 n = concretize(s, a[0], ci->size[0] * 8); u64 p = (s.heap + 16 + 15) & ~15ull; if (PW == 16) p = (s.heap + 3) & ~1ull; if (p + n > H_END) { addErr("engine heap exhausted"); incomplete = true; throw Kill(); } s.heap = p + n; setValid(s, p, n, 1); for (u64 i = 0; i < n;) { Page* q = s.mem.wr(p + i); u64 o = (p + i) & (PG - 1), k = std::min<u64>(PG - o, n - i); memset(q->d + o, 0xCC, k); i += k; } setR(CV(p)); break; }
  case I_FREE: { u64 p = concretize(s, a[0], PW), n = concretize(s, a[1], ci->size[1] * 8); setValid(s, p, n, 0); break; }
  case I_POISON: { u64 p = concretize(s, a[0], PW), n = concretize(s, a[1], ci->size[1] * 8); for (u64 i = 0; i < n; i++) { Page* q = s.mem.wr(p + i); q->v[(p + i) & (PG - 1)] = 0; } break; }
  case I_UNPOISON: { u64 p = concretize(s, a[0], PW), n = concretize(s, a[1], ci->size[1] * 8); for (u64 i = 0; i < n; i++) { Page* q = s.mem.wr(p + i); q->v[(p + i) & (PG - 1)] = 1; } break; }
  case I_VALID: { u64 p = concretize(s, a[0], PW), n = concretize(s, a[1], ci->size[1] * 8); bool ok = true; for (u64 i = 0; i < n && ok; i++) ok = validR(s, p + i, 1); setR(CV(ok)); break; }
  case I_THROW: { while (!s.fr.empty()) { int cd = s.fr.back().catchDst; bool isC_ = cd >= -1; popFrame(s); if (isC_) { if (s.fr.empty()) break; if (cd >= 0) s.regs[s.fr.back().base + cd] = a[0]; s.fr.back().pc++; return; } } pathDone(s); throw Kill(); }
  case I_LOG: fprintf(stderr, "[log] %s\n", cstr(s, a[0]).c_str()); break;
  case I_SHOW: fprintf(stderr, "[show] %s = %s\n", cstr(s, a[0]).c_str(), a[1].e ? estr(a[1].e, 8).c_str() : std::to_string((s64)a[1].c).c_str()); break;
  case I_PARAM: { auto it = params.find(cstr(s, a[0])); setR(it == params.end() ? CV(sx(concretize(s, a[1], 32), 32) & mask(32)) : CV((u64)it->second & mask(32))); break; }
  case I_SETJMP: { u64 p = concretize(s, a[0], PW); storeC(s, p, CV(s.fr.size()), 4, 32); storeC(s, p + 4, CV(s.fr.back().pc), 4, 32); storeC(s, p + 8, CV((u32)I.dst), 4, 32); storeC(s, p + 12, CV(s.fr.back().f->addr), 4, 32); setR(CV(0)); break; }
  case I_LONGJMP: { u64 p = concretize(s, a[0], PW); u64 n = concretize(s, loadC(s, p, 4, 32), 32), pc = concretize(s, loadC(s, p + 4, 4, 32), 32), fa = concretize(s, loadC(s, p + 12, 4, 32), 32); s32 d = (s32)concretize(s, loadC(s, p + 8, 4, 32), 32); Val v = a[1];
      if (n == 0 || n > s.fr.size() || s.fr[n - 1].f->addr != fa) bug(s, "memory", "longjmp to an inactive frame"); while (s.fr.size() > n) popFrame(s); if (!v.e && v.c == 0) v = CV(1); if (d >= 0) s.regs[s.fr.back().base + d] = v; s.fr.back().pc = pc + 1; return; }
  case I_STOP: pathDone(s); throw Kill();
  case I_CONC: setR(CV(concretize(s, a[0], ci->size[0] * 8))); break;
  case I_ITE: { Expr* c = mkNot(mk(K_EQ, 1, X(a[0], ci->size[0] * 8), mkConst(0, ci->size[0] * 8))); setR(EV(mkIte(c, X(a[1], I.w), X(a[2], I.w)))); break; }
  case I_SAMPLE: if (samples.size() < 40) { str m = cstr(s, a[0], 400); if (std::find(samples.begin(), samples.end(), m) == samples.end()) samples.push_back(m); } break;
  case I_ISFEAS: { Expr* c = mkNot(mk(K_EQ, 1, X(a[0], ci->size[0] * 8), mkConst(0, ci->size[0] * 8))); if (isC(c)) { setR(CV(c->c)); break; } if (ev1(c, s.model)) { setR(CV(1)); break; } Model m = s.model; setR(CV(solve(s.cons, c, m) == SAT)); break; }
  default: addErr("unhandled intrinsic"); throw Kill();
  }
  s.fr.back().pc++;
}

static inline void take(State& s, Edge* e, Val* r, Func* f) {
  size_t n = e->moves.size();
  auto get = [&](int o) -> const Val& { return o >= 0 ? r[o] : f->consts[~o]; };
  if (n == 1) r[e->moves[0].first] = get(e->moves[0].second);
  else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(e->moves[i].second); for (size_t i = 0; i < n; i++) r[e->moves[i].first] = t[i]; }
  s.fr.back().pc = e->target;
}

static void runState(State& s) {
  S = &s; u64 chk = 0;
  std::vector<Val> args;
  while (true) {
    Frame* fr = &s.fr.back(); Func* f = fr->f; Val* r = s.regs.data() + fr->base; const Val* K = f->consts.data(); Inst* code = f->code.data();
#define G(o) ((o) >= 0 ? r[o] : K[~(o)])
    bool resync = false;
    while (!resync) {
      Inst& I = code[fr->pc];
      if (g_prof) stepAt[s.fr.back().f->name]++;
      if (++s.steps > g_maxSteps) { bug(s, "nontermination", "step limit exceeded"); }
      if (!(++chk & 0xffff)) { if (now() - t_start > g_maxTime) { incomplete = true; addErr("time limit"); throw Kill(); } }
      switch (I.op) {
      case O_ADD: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV((a.c + b.c) & mask(I.w)); } else r[I.dst] = bin(K_ADD, I.w, a, b); fr->pc++; break; }
      case O_SUB: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV((a.c - b.c) & mask(I.w)); } else r[I.dst] = bin(K_SUB, I.w, a, b); fr->pc++; break; }
      case O_MUL: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV((a.c * b.c) & mask(I.w)); } else r[I.dst] = bin(K_MUL, I.w, a, b); fr->pc++; break; }
      case O_AND: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV(a.c & b.c); } else r[I.dst] = bin(K_AND, I.w, a, b); fr->pc++; break; }
      case O_OR: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV(a.c | b.c); } else r[I.dst] = bin(K_OR, I.w, a, b); fr->pc++; break; }
      case O_XOR: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV(a.c ^ b.c); } else r[I.dst] = bin(K_XOR, I.w, a, b); fr->pc++; break; }
      case O_SHL: { auto &a = G(I.a), &b = G(I.b); r[I.dst] = bin(K_SHL, I.w, a, b); fr->pc++; break; }
      case O_LSHR: { auto &a = G(I.a), &b = G(I.b); r[I.dst] = bin(K_LSHR, I.w, a, b); fr->pc++; break; }
      case O_ASHR: { auto &a = G(I.a), &b = G(I.b); r[I.dst] = bin(K_ASHR, I.w, a, b); fr->pc++; break; }
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
        Val a = G(I.a), b = G(I.b);
        if (b.e) { if (branchRe(s, mk(K_EQ, 1, b.e, mkConst(0, I.w)))) bug(s, "trap", "division by zero"); } else if (!b.c) bug(s, "trap", "division by zero");
        if ((I.op == O_SDIV || I.op == O_SREM) && I.w >= 32) {
          Expr* ov = mk(K_AND, 1, mk(K_EQ, 1, X(a, I.w), mkConst(1ull << (I.w - 1), I.w)), mk(K_EQ, 1, X(b, I.w), mkConst(~0ull, I.w)));
          if (branchRe(s, ov)) bug(s, "trap", "signed division overflow"); }
        r[I.dst] = bin(I.op == O_UDIV ? K_UDIV : I.op == O_SDIV ? K_SDIV : I.op == O_UREM ? K_UREM : K_SREM, I.w, a, b); fr->pc++; break; }
      case O_ICMP: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) { r[I.dst] = CV(icmpC(I.sub, a.c, b.c, I.w)); } else r[I.dst] = EV(icmp(I.sub, X(a, I.w), X(b, I.w))); fr->pc++; break; }
      case O_ZEXT: { auto& a = G(I.a); if (!a.e) r[I.dst] = CV(a.c); else r[I.dst] = EV(mkZExt(a.e, I.w)); fr->pc++; break; }
      case O_SEXT: { auto& a = G(I.a); if (!a.e) r[I.dst] = CV((u64)sx(a.c, I.w2) & mask(I.w)); else r[I.dst] = EV(mkSExt(a.e, I.w)); fr->pc++; break; }
      case O_TRUNC: { auto& a = G(I.a); if (!a.e) r[I.dst] = CV(a.c & mask(I.w)); else r[I.dst] = EV(mkExtract(a.e, 0, I.w)); fr->pc++; break; }
      case O_MOV: r[I.dst] = G(I.a); fr->pc++; break;
      case O_SELECT: { Val c = G(I.a); if (c.e && I.sub) { bool t = branchRe(s, c.e); r[I.dst] = t ? G(I.b) : G(I.c); fr->pc++; break; } if (!c.e) r[I.dst] = c.c ? G(I.b) : G(I.c); else r[I.dst] = EV(mkIte(c.e, X(G(I.b), I.w), X(G(I.c), I.w))); fr->pc++; break; }
      case O_LOAD: { Val v = load(s, G(I.a), I.imm, I.w2, I.w); r[I.dst] = v; fr->pc++; break; }
      case O_STORE: store(s, G(I.a), I.imm, G(I.b), I.w2, I.w); fr->pc++; break;
      case O_GEPC: { auto& a = G(I.a); if (!a.e) r[I.dst] = CV((a.c + I.imm) & mask(PW)); else r[I.dst] = I.imm ? EV(mk(K_ADD, PW, a.e, mkConst(I.imm, PW))) : a; fr->pc++; break; }
      case O_GEPI: { auto &a = G(I.a), &b = G(I.b); if (!a.e && !b.e) r[I.dst] = CV((a.c + (u64)sx(b.c, I.w2) * I.imm) & mask(PW)); else { Expr* ix = X(b, I.w2); ix = I.w2 < PW ? mkSExt(ix, PW) : mkExtract(ix, 0, PW); r[I.dst] = EV(mk(K_ADD, PW, X(a, PW), mk(K_MUL, PW, ix, mkConst(I.imm, PW)))); } fr->pc++; break; }
      case O_ALLOCA: { Val nv = G(I.a); u64 n = concretize(s, nv, I.w2); r[I.dst] = CV(I.sub && fr->va ? fr->va - PB : stackAlloc(s, n * I.imm, I.c)); fr->pc++; break; }
      case O_STACKSAVE: r[I.dst] = CV(s.sp); fr->pc++; break;
      case O_STACKRESTORE: { u64 p = G(I.a).c; if (p < s.sp) setValid(s, p, s.sp - p, 0); s.sp = p; fr->pc++; break; }
      case O_BR: take(s, (Edge*)I.x, r, f); break;
      case O_CBR: { Val c = G(I.a); auto pr = (std::pair<Edge*, Edge*>*)I.x;
        if (!c.e) { take(s, c.c ? pr->first : pr->second, r, f); break; }
        Model o; bool vm = false; int d = decide(s, c.e, o, vm);
        if (d == 2) { State* n = forkState(s); n->model = o; Expr* nc = mkNot(c.e); n->cons.push_back(vm ? nc : c.e); s.cons.push_back(vm ? c.e : nc); take(*n, vm ? pr->second : pr->first, n->regs.data() + n->fr.back().base, f); push(n); d = vm; }
        take(s, d ? pr->first : pr->second, r, f); break; }
      case O_SWITCH: { Val c = G(I.a); auto t = (SwitchTab*)I.x;
        if (!c.e) { Edge* e = t->def; for (auto& k : t->cases) if (k.first == c.c) { e = k.second; break; } take(s, e, r, f); break; }
        // group cases by target
        Edge* dest = nullptr; 
        u64 v0 = ev1(c.e, s.model); Edge* want = t->def; for (auto& k : t->cases) if (k.first == v0) { want = k.second; break; }
        // condition for 'want'
        auto condFor = [&](Edge* e) { Expr* q = nullptr; if (e == t->def) { q = mkConst(1, 1); for (auto& k : t->cases) q = mk(K_AND, 1, q, mkNot(mk(K_EQ, 1, c.e, mkConst(k.first, I.w)))); } else { q = mkConst(0, 1); for (auto& k : t->cases) if (k.second->target == e->target && k.second->moves == e->moves) q = mk(K_OR, 1, q, mk(K_EQ, 1, c.e, mkConst(k.first, I.w))); } return q; };
        Expr* q = condFor(want); if (!branchRe(s, q)) { incomplete = true; throw Kill(); } dest = want;
        r = s.regs.data() + fr->base; take(s, dest, r, f); break; }
      case O_RET: { CallInfo* ci = (CallInfo*)I.x; Val rv[8]; int n = I.c; if (n > 8) { addErr("big return"); throw Kill(); } for (int k = 0; k < n; k++) rv[k] = G(ci->args[k]); int rd = fr->retDst, cd = fr->catchDst; popFrame(s);
        if (s.fr.empty()) { pathDone(s); throw Kill(); }
        Val* pr = s.regs.data() + s.fr.back().base; if (cd >= -1) { if (cd >= 0) pr[cd] = CV(0x7fffffff & 0); if (cd >= 0 && n) pr[cd] = rv[0]; } else if (rd >= 0) for (int k = 0; k < n; k++) pr[rd + k] = rv[k];
        s.fr.back().pc++; resync = true; break; }
      case O_CALL: case O_CALLI: case O_INTR: {
        CallInfo* ci = (CallInfo*)I.x; Func* cf = ci->f; args.clear(); for (int a : ci->args) args.push_back(G(a));
        if (I.op == O_CALLI) { u64 a = concretize(s, G(I.a), PW); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) bug(s, "memory", "call through invalid pointer"); cf = it->second; r = s.regs.data() + fr->base; }
        if (cf->intr >= 0) { if (cf->intr == I_CATCH) { u64 a = concretize(s, args[0], PW); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) bug(s, "harness", "vs_catch"); std::vector<Val> a1(args.begin() + 1, args.end()); enter(s, it->second, a1, nullptr, -1, I.dst >= 0 ? I.dst : -1); }
          else { Inst tmp = I; tmp.sub = cf->intr; intrinsic(s, tmp, args, ci, r); } }
        else { int fw = cf->lf->getFunctionType()->getReturnType()->isVoidTy() ? -1 : I.dst; enter(s, cf, args, ci, fw, -2); }
        resync = true; break; }
      case O_MEMCPY: { Val va = G(I.a), vb = G(I.b), vl = G(I.c); u64 n = concretize(s, vl, I.w2); u64 d = concretize(s, va, PW), q = concretize(s, vb, PW);
        if (n) { if (n > (1u << 26) || !validR(s, q, n)) memErr(s, "read (memcpy)", q, n); if (!validW(s, d, n)) memErr(s, "write (memcpy)", d, n);
        auto cp1 = [&](u64 k) { Page* sp = s.mem.rd(q + k); u64 o = (q + k) & (PG - 1); u8 dv = sp->d[o]; Expr* se = sp->s ? sp->s[o] : nullptr; Page* dp = s.mem.wr(d + k); u64 o2 = (d + k) & (PG - 1); dp->d[o2] = dv; if (se) setByte(dp, o2, se); else if (dp->s) dp->s[o2] = nullptr; };
        if (d <= q) for (u64 k = 0; k < n; k++) cp1(k); else for (u64 k = n; k-- > 0;) cp1(k); }
        fr->pc++; break; }
      case O_MEMSET: { Val va = G(I.a), vb = G(I.b), vl = G(I.c); u64 n = concretize(s, vl, I.w2); u64 d = concretize(s, va, PW); if (n) { if (n > (1u << 26) || !validW(s, d, n)) memErr(s, "write (memset)", d, n); Expr* e = X(vb, 8); for (u64 k = 0; k < n; k++) setByte(s.mem.wr(d + k), (d + k) & (PG - 1), e); } fr->pc++; break; }
      case O_VASTART: { u64 p = concretize(s, G(I.a), PW); if (PW == 64) { storeC(s, p, CV(48), 4, 32); storeC(s, p + 4, CV(176), 4, 32); storeC(s, p + 8, CV(fr->va), 8, 64); storeC(s, p + 16, CV(0), 8, 64); } else storeC(s, p, CV(fr->va), PB, PW); fr->pc++; break; }
      case O_VACOPY: { u64 d = concretize(s, G(I.a), PW), q = concretize(s, G(I.b), PW); unsigned n = PW == 64 ? 24 : PB; for (unsigned k = 0; k < n; k++) storeC(s, d + k, loadC(s, q + k, 1, 8), 1, 8); fr->pc++; break; }
      case O_MINMAX: { Expr *a = X(G(I.a), I.w), *b = X(G(I.b), I.w); Expr* lt = mk(I.sub < 2 ? K_ULT : K_SLT, 1, a, b); r[I.dst] = EV((I.sub & 1) ? mkIte(lt, b, a) : mkIte(lt, a, b)); fr->pc++; break; }
      case O_ABS: { Expr* a = X(G(I.a), I.w); r[I.dst] = EV(mkIte(mk(K_SLT, 1, a, mkConst(0, I.w)), mk(K_SUB, I.w, mkConst(0, I.w), a), a)); fr->pc++; break; }
      case O_FSH: { Expr *a = X(G(I.a), I.w), *b = X(G(I.b), I.w), *c = X(G(I.c), I.w); unsigned w = I.w; Expr* sh = mk(K_UREM, w, c, mkConst(w, w)); Expr* inv = mk(K_SUB, w, mkConst(w, w), sh); Expr* q = I.sub ? mk(K_OR, w, mk(K_SHL, w, a, inv), mk(K_LSHR, w, b, sh)) : mk(K_OR, w, mk(K_SHL, w, a, sh), mk(K_LSHR, w, b, inv)); r[I.dst] = EV(mkIte(mk(K_EQ, 1, sh, mkConst(0, w)), I.sub ? b : a, q)); fr->pc++; break; }
      case O_SAT: { Expr *a = X(G(I.a), I.w), *b = X(G(I.b), I.w); if (I.sub) { Expr* t = mk(K_ADD, I.w, a, b); r[I.dst] = EV(mkIte(mk(K_ULT, 1, t, a), mkConst(~0ull, I.w), t)); } else r[I.dst] = EV(mkIte(mk(K_ULT, 1, a, b), mkConst(0, I.w), mk(K_SUB, I.w, a, b))); fr->pc++; break; }
      case O_OVF: { Expr *a = X(G(I.a), I.w), *b = X(G(I.b), I.w); unsigned w = I.w; Expr *res, *ov; 
        if (I.sub < 2) { res = mk(K_ADD, w, a, b); if (I.sub == 1) ov = mk(K_ULT, 1, res, a); else { Expr* z = mkConst(0, w); Expr *sa = mk(K_SLT, 1, a, z), *sb = mk(K_SLT, 1, b, z), *sr = mk(K_SLT, 1, res, z); ov = mk(K_AND, 1, mk(K_EQ, 1, sa, sb), mkNot(mk(K_EQ, 1, sr, sa))); } }
        else if (I.sub < 4) { res = mk(K_SUB, w, a, b); if (I.sub == 3) ov = mk(K_ULT, 1, a, b); else { Expr* z = mkConst(0, w); Expr *sa = mk(K_SLT, 1, a, z), *sb = mk(K_SLT, 1, b, z), *sr = mk(K_SLT, 1, res, z); ov = mk(K_AND, 1, mkNot(mk(K_EQ, 1, sa, sb)), mkNot(mk(K_EQ, 1, sr, sa))); } }
        else if (I.sub == 5 && (isC(a) || isC(b))) { if (isC(a)) std::swap(a, b); res = mk(K_MUL, w, a, b); ov = b->c ? mk(K_ULT, 1, mkConst(mask(w) / b->c, w), a) : mkConst(0, 1); }
        else { if (w > 32) { if (isC(a) && isC(b)) { unsigned __int128 p = (unsigned __int128)a->c * b->c; __int128 sp = (__int128)sx(a->c, w) * sx(b->c, w); res = mkConst((u64)p, w); ov = mkConst(I.sub == 5 ? (p >> w) != 0 : sp != sx((u64)p & mask(w), w), 1); }
            else { res = mk(K_MUL, w, a, b); if (I.sub == 5) { // a*b overflows iff a != 0 and res / a != b
                 Expr* z = mk(K_EQ, 1, a, mkConst(0, w)); ov = mk(K_AND, 1, mkNot(z), mkNot(mk(K_EQ, 1, mk(K_UDIV, w, res, mkIte(z, mkConst(1, w), a)), b))); } else { addErr("smul.with.overflow.i64 symbolic"); incomplete = true; throw Kill(); } } }
          else { unsigned d = w * 2; bool sg = I.sub == 4; Expr* p = mk(K_MUL, d, sg ? mkSExt(a, d) : mkZExt(a, d), sg ? mkSExt(b, d) : mkZExt(b, d)); res = mkExtract(p, 0, w); ov = mkNot(mk(K_EQ, 1, sg ? mkSExt(res, d) : mkZExt(res, d), p)); } }
        r[I.dst] = EV(res); r[I.dst + 1] = EV(ov); fr->pc++; break; }
      case O_BITOP: { Val a = G(I.a); unsigned w = I.w; Expr* e = X(a, w); Expr* res;
        if (I.sub == 3) { res = mkExtract(e, 0, 8); for (unsigned k = 1; k < w / 8; k++) res = mkConcat(res, mkExtract(e, k * 8, 8)); }
        else if (I.sub == 4) { res = mkExtract(e, 0, 1); for (unsigned k = 1; k < w; k++) res = mkConcat(res, mkExtract(e, k, 1)); }
        else if (I.sub == 2) { res = mkConst(0, w); for (unsigned k = 0; k < w; k++) res = mk(K_ADD, w, res, mkZExt(mkExtract(e, k, 1), w)); }
        else { res = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned b = I.sub == 0 ? k : w - 1 - k; unsigned v = I.sub == 0 ? w - 1 - k : b; res = mkIte(mk(K_EQ, 1, mkExtract(e, b, 1), mkConst(1, 1)), mkConst(v, w), res); } }
        r[I.dst] = EV(res); fr->pc++; break; }
      case O_FBIN: { auto &a = G(I.a), &b = G(I.b); r[I.dst] = EV(mk(I.sub, I.w, X(a, I.w), X(b, I.w))); fr->pc++; break; }
      case O_FMULADD: { Expr *a = X(G(I.a), I.w), *b = X(G(I.b), I.w), *c = X(G(I.c), I.w); r[I.dst] = EV(mk(K_FADD, I.w, mk(K_FMUL, I.w, a, b), c)); fr->pc++; break; }
      case O_FSQRT: { Expr* a = X(G(I.a), I.w); r[I.dst] = EV(mk(K_FSQRT, I.w, a)); fr->pc++; break; }
      case O_FNEG: { r[I.dst] = EV(mk(K_XOR, I.w, X(G(I.a), I.w), mkConst(1ull << (I.w - 1), I.w))); fr->pc++; break; }
      case O_FABS: { r[I.dst] = EV(mk(K_AND, I.w, X(G(I.a), I.w), mkConst(mask(I.w - 1), I.w))); fr->pc++; break; }
      case O_ISCLASS: { Expr* a = X(G(I.a), I.w); unsigned mb = I.w == 32 ? 23 : 52, eb = I.w == 32 ? 8 : 11; Expr *ex = mkExtract(a, mb, eb), *mn = mkExtract(a, 0, mb), *sg = mkExtract(a, I.w - 1, 1); Expr *e1 = mk(K_EQ, 1, ex, mkConst(~0ull, eb)), *e0 = mk(K_EQ, 1, ex, mkConst(0, eb)), *m0 = mk(K_EQ, 1, mn, mkConst(0, mb)), *q = mkExtract(mn, mb - 1, 1); Expr* res = mkConst(0, 1); auto add = [&](int bit, Expr* c) { if (I.imm & (1 << bit)) res = mk(K_OR, 1, res, c); }; auto A = [&](Expr* x, Expr* y) { return mk(K_AND, 1, x, y); };
        Expr* ns = mkNot(sg); Expr *inf = A(e1, m0), *nan = A(e1, mkNot(m0)), *zero = A(e0, m0), *sub = A(e0, mkNot(m0)), *nor = A(mkNot(e0), mkNot(e1));
        add(0, A(nan, mkNot(q))); add(1, A(nan, q)); add(2, A(inf, sg)); add(3, A(nor, sg)); add(4, A(sub, sg)); add(5, A(zero, sg)); add(6, A(zero, ns)); add(7, A(sub, ns)); add(8, A(nor, ns)); add(9, A(inf, ns)); r[I.dst] = EV(res); fr->pc++; break; }
      case O_FCMP: { r[I.dst] = EV(fcmp(I.sub, X(G(I.a), I.w), X(G(I.b), I.w))); fr->pc++; break; }
      case O_FPCONV: { r[I.dst] = EV(mk(I.sub, I.w, X(G(I.a), I.w2))); fr->pc++; break; }
      case O_UNREACH: bug(s, "trap", "unreachable executed"); break;
      case O_NOP: fr->pc++; break;
      default: addErr("unsupported: " + (I.x ? *(str*)I.x : str("?"))); incomplete = true; n_killed++; throw Kill();
      }
    }
  }
}

// ------------------------------------------------------------------ setup
static void initGlobal(State& s, Constant* c, u64 a) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); for (size_t i = 0; i < raw.size(); i++) { Page* p = s.mem.wr(a + i); p->d[(a + i) & (PG - 1)] = raw[i]; } return; }
  if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, c->getAggregateElement(i), a + sl->getElementOffset(i)); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(s, c->getAggregateElement(i), a + i * es); return; }
  u64 v = Decoder::cval(c); unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n; i++) { Page* p = s.mem.wr(a + i); p->d[(a + i) & (PG - 1)] = (u8)(v >> (8 * i)); }
}
static str jesc(const str& s) { str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void report(const str& path) {
  if (g_prof) { std::vector<std::pair<u64, str>> v; for (auto& p : forkAt) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  if (g_prof) { std::vector<std::pair<u64, str>> v; for (auto& p : stepAt) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  FILE* o = path.empty() ? stdout : fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); return; }
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"killed\":%llu,\"assume_killed\":%llu,\"steps\":%llu,\"asserts\":%llu,\"asserts_solver\":%llu,\"asserts_unknown\":%llu,\"branch_unknown\":%llu,\"incomplete\":%s,", (unsigned long long)n_paths, (unsigned long long)n_forks, (unsigned long long)n_killed, (unsigned long long)n_assumeKill, (unsigned long long)n_steps, (unsigned long long)n_asserts, (unsigned long long)n_assertsSolver, (unsigned long long)n_assertsUnk, (unsigned long long)n_branchUnk, incomplete ? "true" : "false");
  fprintf(o, "\"queries\":%llu,\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"q_cache\":%llu,\"solver_s\":%.3f,\"q_max_s\":%.3f,\"wall_s\":%.3f,", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cache, g_ss.time, g_ss.maxtime, now() - t_start);
  fprintf(o, "\"covers\":{"); bool first = true; for (auto& c : coverCount) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"assertions\":{"); first = true; int na = 0; for (auto& c : assertCount) { if (na++ > 200) break; fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\"functions\":["); first = true; for (auto& p : funcs) if (p.second->calls) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p.second->name).c_str()); first = false; }
  fprintf(o, "],\"errors\":["); first = true; for (auto& e : errors) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
  fprintf(o, "],\"samples\":["); first = true; for (auto& e : samples) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
  fprintf(o, "],\"witnesses\":["); first = true;
  for (auto& v : witn) { fprintf(o, "%s[", first ? "" : ","); first = false; for (size_t i = 0; i < v.syms.size(); i++) fprintf(o, "%s[\"%s\",%d,%llu]", i ? "," : "", jesc(v.syms[i].name).c_str(), v.syms[i].w, (unsigned long long)v.vals[i]); fprintf(o, "]"); }
  fprintf(o, "],\"violations\":["); first = true;
  for (auto& v : viols) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str()); first = false; for (size_t i = 0; i < v.syms.size(); i++) fprintf(o, "%s[\"%s\",%d,%llu]", i ? "," : "", jesc(v.syms[i].name).c_str(), v.syms[i].w, (unsigned long long)v.vals[i]); fprintf(o, "]}"); }
  fprintf(o, "]}\n"); if (!path.empty()) fclose(o);
}
static str outPath;
static void runOne(State* s) { u64 st0 = s->steps; try { runState(*s); } catch (Kill&) {} n_steps += s->steps - st0; delete s; }
// z3 does not always honour its timeout while preprocessing: past the time limit the process reports what it has and ends
static void watchdog(str out) { pthread_t t; auto fn = [](void* a) -> void* { str o = *(str*)a; for (;;) { usleep(300000); if (now() - t_start > g_maxTime + 12) { incomplete = true; addErr("watchdog"); report(o); _exit(viols.empty() ? 0 : 1); } } }; pthread_create(&t, nullptr, fn, new str(out)); pthread_detach(t); }
static bool limits() { if (n_paths + n_killed >= g_maxPaths) { incomplete = true; addErr("path limit"); return true; } if (now() - t_start > g_maxTime) { incomplete = true; addErr("time limit"); return true; } if ((int)viols.size() >= g_maxViol) return true; return false; }

static int realMain(int argc, char** argv) {
  t_start = now(); std::vector<str> files, ovr; str entry = "main";
  for (int i = 1; i < argc; i++) { str a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return str(argv[++i]); };
    if (a == "-o") outPath = nx(); else if (a == "-entry") entry = nx(); else if (a == "-j") g_jobs = atoi(nx().c_str()); else if (a == "-time") g_maxTime = atof(nx().c_str()); else if (a == "-paths") g_maxPaths = strtoull(nx().c_str(), 0, 0); else if (a == "-steps") g_maxSteps = strtoull(nx().c_str(), 0, 0);
    else if (a == "-override") ovr.push_back(nx()); else if (a == "-maxviol") g_maxViol = atoi(nx().c_str()); else if (a == "-split") g_split = atoi(nx().c_str()); else if (a == "-qt") g_timeout = atoi(nx().c_str()); else if (a == "-aqt") g_hardTimeout = atoi(nx().c_str()); else if (a == "-dump") g_dump = true; else if (a == "-prof") g_prof = true;
    else if (a == "-wit") g_maxW = atoi(nx().c_str()); else if (a == "-fix") { g_hasFix = true; FILE* f = fopen(nx().c_str(), "r"); unsigned long long v; while (f && fscanf(f, "%llu", &v) == 1) g_fix.push_back(v); if (f) fclose(f); }
    else if (a == "-p") { str kv = nx(); size_t e = kv.find('='); params[kv.substr(0, e)] = strtoll(kv.c_str() + e + 1, 0, 0); } else files.push_back(a); }
  SMDiagnostic err; std::unique_ptr<Module> mod;
  auto loadM = [&](const str& f) { auto m = parseIRFile(f, err, LC); if (!m) { err.print("vsym", errs()); exit(3); } return m; };
  for (auto& f : files) { auto m = loadM(f); if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link error %s\n", f.c_str()); exit(3); } }
  for (auto& f : ovr) { auto m = loadM(f); if (Linker::linkModules(*mod, std::move(m), Linker::OverrideFromSrc)) exit(3); }
  M = mod.get(); DL = &M->getDataLayout(); PB = DL->getPointerSize(); PW = PB * 8;
  // addresses
  u64 fa = PW == 16 ? 2 : 0x1000; unsigned fstep = PW == 16 ? 2 : 16;
  std::set<str> namesOfReal;
  for (auto& f : *M) { Func* F = new Func(); F->lf = &f; F->name = f.getName().str(); F->vararg = f.isVarArg(); F->addr = fa; fa += fstep; funcs[&f] = F; funcByAddr[F->addr] = F; auto it = intrNames.find(F->name); if (it != intrNames.end()) F->intr = it->second; if (auto sp = f.getSubprogram()) F->file = sp->getFilename().str(); }
  G_BASE = PW == 16 ? ((fa + 63) & ~63ull) : 0x100000; if (PW != 16 && G_BASE < fa) G_BASE = (fa + 0xffff) & ~0xffffull;
  State* s = new State(); u64 g = G_BASE; u64 red = PW == 16 ? 2 : 32;
  for (auto& v : M->globals()) { if (v.getName().startswith("llvm.")) continue; if (v.isDeclaration()) { if (v.getName() == "__heap_start" ) {} gaddr[&v] = 0; addErr("undefined global " + v.getName().str()); continue; } u64 al = std::max<u64>(DL->getPreferredAlign(&v).value(), PW == 16 ? 2 : 16); g = (g + red + al - 1) & ~(al - 1); gaddr[&v] = g; g += DL->getTypeAllocSize(v.getValueType()); }
  for (auto& v : M->globals()) { if (v.isDeclaration() || v.getName().startswith("llvm.")) continue; u64 n = DL->getTypeAllocSize(v.getValueType()); setValid(*s, gaddr[&v], n, 1); initGlobal(*s, v.getInitializer(), gaddr[&v]); if (v.isConstant()) for (u64 i = 0; i < n; i++) { Page* p = s->mem.wr(gaddr[&v] + i); p->v[(gaddr[&v] + i) & (PG - 1)] = 2; } }
  if (PW == 16) { H_BASE = (g + 15) & ~15ull; H_END = 0xB000; ST_BASE = 0xB000; ST_SIZE = 0x4F00; if (H_BASE > 0xA800) fprintf(stderr, "16-bit memory tight\n"); } else { H_BASE = (g + 0xfffff) & ~0xfffffull; H_END = H_BASE + (128u << 20); ST_BASE = (H_END + 0xfffff) & ~0xfffffull; ST_SIZE = 16u << 20; }
  s->heap = H_BASE; s->sp = ST_BASE;
  Function* mf = M->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  try { enter(*s, funcs[mf], {}, nullptr, -1, -2); } catch (Kill&) { return 3; }
  work.push_back(s);
  if (g_jobs <= 1) { watchdog(outPath); while (!work.empty() && !limits()) { State* t = work.back(); work.pop_back(); runOne(t); } if (!work.empty() && (int)viols.size() < g_maxViol) incomplete = true; report(outPath); return viols.empty() ? 0 : 1; }
  // parallel: breadth-first until enough states, then split among processes
  std::deque<State*> q; q.push_back(work.back()); work.clear();
  while (!q.empty() && q.size() < g_split && !limits() && (now() - t_start < 20 || q.size() < 2)) { State* t = q.front(); q.pop_front(); runOne(t); for (auto w : work) q.push_back(w); work.clear(); }
  if (q.empty() || limits()) { if (!q.empty() && (int)viols.size() < g_maxViol) incomplete = true; report(outPath); return viols.empty() ? 0 : 1; }
  std::vector<State*> init(q.begin(), q.end());
  u64* ctr = (u64*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *ctr = 0;
  fflush(stdout); std::vector<pid_t> kids;
  for (int k = 0; k < g_jobs; k++) { pid_t p = fork(); if (p < 0) { perror("fork"); continue; } if (!p) {
      if (k) { n_paths = n_forks = n_asserts = n_assertsSolver = n_assertsUnk = n_steps = n_killed = n_assumeKill = n_branchUnk = 0; g_ss = SolverStats(); coverCount.clear(); assertCount.clear(); viols.clear(); for (auto& f : funcs) f.second->calls = 0; samples.clear(); errors.clear(); incomplete = false; }
      watchdog(outPath + "." + std::to_string(k));
      while (true) { u64 i = __atomic_fetch_add(ctr, 1, __ATOMIC_SEQ_CST); if (i >= init.size()) break; work.push_back(init[i]); while (!work.empty() && !limits()) { State* t = work.back(); work.pop_back(); runOne(t); } if (limits()) { if ((int)viols.size() < g_maxViol) incomplete = true; if (now() - t_start > g_maxTime) {} break; } }
      report(outPath + "." + std::to_string(k)); _exit(viols.empty() ? 0 : 1); } kids.push_back(p); }
  int rc = 0; for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) rc = 3; else if (WEXITSTATUS(st) == 1 && rc == 0) rc = 1; }
  return rc;
}
static int g_argc; static char** g_argv; static int g_rc;
static void* thr(void*) { g_rc = realMain(g_argc, g_argv); return nullptr; }
int main(int argc, char** argv) { g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2000ull << 20); pthread_t t; if (pthread_create(&t, &at, thr, nullptr)) { perror("pthread"); return 3; } pthread_join(t, nullptr); fflush(stdout); _exit(g_rc); }
