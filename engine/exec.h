#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <string>
#include <cstring>

struct Val { E e = nullptr; u64 c = 0; const std::vector<Val>* agg = nullptr;
  bool conc() const { return !e && !agg; } };
inline Val VC(u64 c) { Val v; v.c = c; return v; }
inline Val VE(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = (u64)e->val; else v.e = e; return v; }
inline Val VA(const std::vector<Val>& x) { Val v; v.agg = new std::vector<Val>(x); return v; }
inline E toE(const Val& v, int w) { return v.e ? v.e : mkConst(v.c, w); }

enum class MK : uint8_t { Heap, New, NewArr, Stack, Global, Ext };
struct MO { u64 base; u64 cap; E sizeE; MK kind; bool ro; std::string name; int slots; };
struct ObjState { int ref; std::vector<uint8_t> b; E* sym; size_t n;
  ObjState(size_t n_) : ref(1), b(n_), sym(nullptr), n(n_) {}
  ObjState(const ObjState& o) : ref(1), b(o.b), sym(nullptr), n(o.n) { if (o.sym) { sym = (E*)malloc(n * sizeof(E) + 8); memcpy((void*)sym, o.sym, n * sizeof(E)); } }
  ~ObjState() { free((void*)sym); }
  void needSym() { if (!sym) sym = (E*)calloc(n + 1, sizeof(E)); } };
struct Entry { MO* mo = nullptr; ObjState* os = nullptr; };
struct Page { int ref = 1; Entry e[32]; };
struct Table { std::vector<Page*> p;
  Table() {} Table(const Table& o) : p(o.p) { for (Page* x : p) if (x) ++x->ref; }
  ~Table() { for (Page* x : p) drop(x); }
  static void drop(Page* x) { if (x && --x->ref == 0) { for (auto& e : x->e) if (e.os && --e.os->ref == 0) delete e.os; delete x; } }
  Entry get(u32 id) const { u32 k = id >> 5; if (k >= p.size() || !p[k]) return Entry(); return p[k]->e[id & 31]; }
  Entry& own(u32 id) { u32 k = id >> 5; if (k >= p.size()) p.resize(k + 1, nullptr); if (!p[k]) p[k] = new Page; else if (p[k]->ref > 1) { Page* n = new Page; for (int i = 0; i < 32; ++i) { n->e[i] = p[k]->e[i]; if (n->e[i].os) ++n->e[i].os->ref; } --p[k]->ref; p[k] = n; } return p[k]->e[id & 31]; }
  ObjState* wr(u32 id) { Entry& e = own(id); if (e.os->ref > 1) { --e.os->ref; e.os = new ObjState(*e.os); } return e.os; }
  void clear(u32 id) { Entry& e = own(id); if (e.os && --e.os->ref == 0) delete e.os; e.os = nullptr; e.mo = nullptr; }
};
struct KInst { llvm::Instruction* I; unsigned op; int dest; std::vector<int> ops; int w = 0; bool vec = false; u64 gepOff = 0; std::vector<std::pair<int, u64>> gepIdx; std::vector<int> gepW; int nextBB[2] = {-1, -1}; int bb = 0; void* callee = nullptr; u64 sz = 0; };
struct KFunction { llvm::Function* F; std::vector<KInst> insts; std::vector<int> bbStart; std::unordered_map<const llvm::BasicBlock*, int> bbIdx; int nregs = 0; bool decoded = false; u64 calls = 0; std::vector<uint8_t> covered; };
struct Frame { KFunction* f; int ip; int prevBB; std::vector<Val> regs; std::vector<u32> allocas; std::vector<Val> varargs; bool ignoreRet = false; };
struct Caught { u64 obj; u64 adj; int count; };
struct ExcInfo { u64 ti, dtor; u64 adj; int refs; bool rethrown; };
typedef std::vector<u32> VClock;
struct Thread { std::vector<Frame> stack; std::vector<Caught> caught; bool done = false; u64 waitMutex = 0; int waitJoin = -1; u64 waitCond = 0; bool detached=false; VClock vc; bool started = true; };
struct SymLog { const char* name; int w; Val v; };
struct Shadow { int wt = -1; u32 wc = 0; bool watomic=false; std::vector<std::pair<int,u32>> rd; };
struct State {
  u64 id; std::vector<Thread> th{1}; int cur = 0;
  Table heap, stk; u32 nextHeap = 1, nextStk = 1;
  std::vector<E> cons; std::unordered_set<u32> consIds; Assign model;
  std::vector<SymLog> log; u64 nUndef = 0, steps = 0, nsym = 0, forks = 0;
  std::map<u64, ExcInfo> exc; std::map<u64, int> mutexOwner; std::map<u64, int> rwReaders; std::map<u64, VClock> syncVC; std::unordered_map<u64, Shadow> shadow;
  bool schedDone = false; int switches = 0; std::vector<std::string> trace; std::map<std::string,int> pickIdx;
  std::unordered_map<u64,u64> kv; // misc
  Thread& t() { return th[cur]; } std::vector<Frame>& stack() { return th[cur].stack; } Frame& fr() { return th[cur].stack.back(); }
};
