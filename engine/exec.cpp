#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
#include <csignal>
#include <sys/resource.h>
using namespace llvm; using std::string; using std::vector; using std::map; using std::set; using std::pair; using std::to_string;
typedef unsigned char u8;

// ------------------------------------------------------------------ globals
static Module* M; static const DataLayout* DL;
static vector<Val> consts; static std::unordered_map<const Constant*, int> constIdx;
static std::unordered_map<const Function*, KFunction*> kfuncs; static std::unordered_map<u64, Function*> funcByAddr; static std::unordered_map<const Function*, u64> funcAddr;
static std::unordered_map<const GlobalVariable*, u64> globAddr; static std::unordered_map<u64, const GlobalVariable*> globByAddr;
static Expr undefExpr; static E UNDEF = &undefExpr;
static const u64 SLOT = 1ull << 20, MARGIN = 0x10000, HEAPBASE = 0x100000000000ull, STKBASE = 0x600000000000ull, FUNCBASE = 0x400000ull;
static u64 ALLOC_CAP = 256 * 1024;       // symbolic-size allocations: larger requests fail
static u64 ALLOC_MAX = 512ull << 20;     // concrete allocation limit
static double maxTime = 600; static u64 maxPaths = ~0ull, maxSteps = 20000000, maxErrors = 12; static int maxSwitches = 6;
static vector<State*> pending; static u64 nextStateId = 1;
static auto tStart = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
struct ErrRec { string kind, msg, loc; vector<string> trace; vector<pair<string, string>> vals; string replay; };
static vector<ErrRec> errors; static map<string, int> errCount; static map<string, u64> incomplete; static map<string, u64> reached; static map<string,u64> assumeFail;
static u64 pathsDone = 0, pathsKilled = 0, totalForks = 0, totalSteps = 0, pathsErr = 0; static u64 nAsserts = 0, nAssertQueries = 0, nBoundsQueries = 0, trivialAsserts = 0;
static u64 shardI = 0, shardN = 1; static bool verbose = false; static string pinPick; 
struct Kill { string why; bool inc; };  // thrown to terminate the current state
struct Retry {};                         // thrown to re-execute the current instruction (state changed)

static bool addCons(State& s, E c) { if (isTrue(c)) return true; if (s.consIds.insert(c->id).second) { if (c->k == K::And && c->w == 1) { addCons(s, c->op[0]); addCons(s, c->op[1]); } else s.cons.push_back(c); } return true; }
static Val read(State& s, int op) { return op >= 0 ? s.fr().regs[op] : consts[~op]; }

// ------------------------------------------------------------------ locations
static string locOf(Instruction* I) {
  string r = I->getFunction()->getName().str(); r = llvm::demangle(r);
  if (const DebugLoc& d = I->getDebugLoc()) { DILocation* L = d.get(); r += " @ " + L->getFilename().str() + ":" + to_string(L->getLine()); for (DILocation* in = L->getInlinedAt(); in; in = in->getInlinedAt()) { r += " <- " + in->getFilename().str() + ":" + to_string(in->getLine()); } }
  return r;
}
static vector<string> stackTrace(State& s) { vector<string> r; auto& st = s.stack(); for (int i = (int)st.size() - 1; i >= 0; --i) { auto& f = st[i]; if (f.ip < (int)f.f->insts.size()) r.push_back(locOf(f.f->insts[f.ip].I)); } return r; }
static string hexv(u128 v) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)v); return b; }

static void reportError(State& s, const string& kind, const string& msg, const Assign& model) {
  vector<string> tr = stackTrace(s); string loc; 
  for (auto& l : tr) if (l.find("/Src/") != string::npos || l.find("harness") != string::npos) { loc = l; break; } if (loc.empty() && !tr.empty()) loc = tr[0];
  string key = kind + "|" + (kind == "assert" ? msg : loc); int n = ++errCount[key]; if (n > 3 || errors.size() >= 60) return;
  ErrRec r; r.kind = kind; r.msg = msg; r.loc = loc; r.trace = tr; newEvalEpoch();
  for (auto& l : s.log) { u128 v = l.v.e ? evalExpr(l.v.e, model) : (u128)l.v.c; r.vals.push_back({l.name, to_string(l.w) + " " + hexv(v)}); }
  newEvalEpoch(); for (auto& t : s.trace) r.trace.push_back("note: " + t);
  errors.push_back(r); if (verbose) { std::cerr << "ERROR " << kind << ": " << msg << "\n"; for (auto& t : tr) std::cerr << "    " << t << "\n"; for (auto& v : r.vals) std::cerr << "      " << v.first << " = " << v.second << "\n"; }
}
[[noreturn]] static void fatalErr(State& s, const string& kind, const string& msg) { reportError(s, kind, msg, s.model); ++pathsErr; throw Kill{"error:" + kind, false}; }
[[noreturn]] static void unsup(const string& w) { throw Kill{w, true}; }

// ------------------------------------------------------------------ branching
static bool profForks = getenv("SYM_FORKS") != nullptr; static map<string, u64> forkSites; static void printForks() { vector<pair<u64, string>> v; for (auto& p : forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; ++i) fprintf(stderr, "forks %llu %s\n", (unsigned long long)v[i].first, v[i].second.substr(0, 260).c_str()); }
static u128 evalIn(State& s, E e) { return evalExpr(e, s.model); }
// may !cond / cond hold?  Returns: 1 only true, 0 only false, 2 both (other state created with negation; current keeps the model's direction, returned in dir)
static int forkOn(State& s, E c, bool& dir, State*& other) {
  other = nullptr; if (c->isConst()) { dir = c->val; return dir; }
  if (s.consIds.count(c->id)) { dir = true; return 1; }
  E nc = mkNot(c); if (s.consIds.count(nc->id)) { dir = false; return 0; }
  dir = evalIn(s, c) == 1; E opp = dir ? nc : c, same = dir ? c : nc;
  Assign m2 = s.model; Res r = solve(s.cons, opp, m2); newEvalEpoch();
  if (r == Res::Unsat) { s.consIds.insert(same->id); return dir; }
  if (r == Res::Unknown) { ++incomplete["solver-unknown"]; addCons(s, same); return dir; }
  if (profForks) { auto tr = stackTrace(s); string l; for (auto& t : tr) if (t.find("/Src/") != string::npos || t.find("harness") != string::npos) { l = t; break; } ++forkSites[l.empty() && tr.size() ? tr[0] : l]; }
  other = new State(s); other->id = nextStateId++; other->model = m2; addCons(*other, opp); ++other->forks; ++totalForks; addCons(s, same); ++s.forks; newEvalEpoch();
  return 2;
}
static bool branch(State& s, E c) { // decide c for the current state; the other direction re-executes the current instruction
  bool d; State* o; forkOn(s, c, d, o); if (o) pending.push_back(o); return d;
}
static u64 concretize(State& s, const Val& v, int w) {
  if (v.conc()) return v.c; u64 x = (u64)evalIn(s, v.e); E c = mkEq(v.e, mkConst(x, v.e->w)); bool d; State* o; forkOn(s, c, d, o); if (o) pending.push_back(o); return x;
}
static void assumeE(State& s, E c) {
  if (isTrue(c)) return; if (isFalse(c)) throw Kill{"assume", false};
  if (evalIn(s, c) == 1) { addCons(s, c); return; }
  Res r = solve(s.cons, c, s.model); newEvalEpoch(); if (r == Res::Sat) { addCons(s, c); return; }
  if (r == Res::Unknown) throw Kill{"solver-unknown(assume)", true}; throw Kill{"assume", false};
}
// report an error if cond can be false; continue with cond
static void checkE(State& s, E c, const string& kind, const string& msg) {
  if (isTrue(c)) { ++trivialAsserts; return; } if (s.consIds.count(c->id)) return;
  if (isFalse(c)) fatalErr(s, kind, msg);
  E nc = mkNot(c);
  if (evalIn(s, c) != 1) { reportError(s, kind, msg, s.model); Assign m = s.model; Res r = solve(s.cons, c, s.model); newEvalEpoch(); if (r != Res::Sat) { ++pathsErr; throw Kill{"error:" + kind, r == Res::Unknown}; } addCons(s, c); return; }
  if (isLarge(c, 400) && isTrue(acNorm(c))) { ++trivialAsserts; return; }
  Assign m2 = s.model; Res r = solve(s.cons, nc, m2); newEvalEpoch(); if (r == Res::Sat) { reportError(s, kind, msg, m2); addCons(s, c); } else if (r == Res::Unknown) { ++incomplete["solver-unknown(" + kind + ")"]; addCons(s, c); }
}

// ------------------------------------------------------------------ memory
static Table& tab(State& s, bool stk) { return stk ? s.stk : s.heap; }
struct Ref { bool stk; u32 id; MO* mo; ObjState* os; };
static bool lookup(State& s, u64 addr, Ref& r) {
  if (addr >= STKBASE) { r.stk = true; r.id = (addr - STKBASE) >> 20; } else if (addr >= HEAPBASE) { r.stk = false; r.id = (addr - HEAPBASE) >> 20; } else return false;
  if (r.id >= (1u << 26)) return false; Entry e = tab(s, r.stk).get(r.id); if (!e.mo) return false; 
  if (!e.os) { u32 b = ((e.mo->base) - (r.stk ? STKBASE : HEAPBASE)) >> 20; r.id = b; e = tab(s, r.stk).get(b); if (!e.mo || !e.os) return false; }
  r.mo = e.mo; r.os = e.os; return true;
}
static u64 allocObj(State& s, u64 cap, E sizeE, MK kind, const string& name, bool undef, bool ro = false) {
  bool stk = kind == MK::Stack; u32 id = stk ? s.nextStk : s.nextHeap; int slots = (int)((cap + 2 * MARGIN + SLOT - 1) / SLOT); (stk ? s.nextStk : s.nextHeap) += slots;
  MO* mo = new MO{(stk ? STKBASE : HEAPBASE) + (u64)id * SLOT + MARGIN, cap, sizeE, kind, ro, name, slots};
  ObjState* os = new ObjState(cap); if (undef) { os->sym = (E*)malloc(cap * sizeof(E) + 8); for (u64 i = 0; i < cap; ++i) os->sym[i] = UNDEF; }
  Table& t = tab(s, stk); for (int i = 0; i < slots; ++i) { Entry& e = t.own(id + i); e.mo = mo; e.os = i ? nullptr : os; }
  return mo->base;
}
static void freeObj(State& s, Ref& r) { Table& t = tab(s, r.stk); int n = r.mo->slots; for (int i = 0; i < n; ++i) { Entry& e = t.own(r.id + i); if (e.os && --e.os->ref == 0) delete e.os; e.os = nullptr; e.mo = nullptr; } }
static string objName(MO* m) { const char* k[] = {"heap", "heap(new)", "heap(new[])", "stack", "global", "external"}; return string(k[(int)m->kind]) + " object '" + m->name + "' of " + (m->sizeE ? string("symbolic") : to_string(m->cap)) + " bytes"; }

static E symByte(ObjState* os, u64 i) { return os->sym ? os->sym[i] : nullptr; }
static Val readBytes(State& s, Ref& r, u64 off, u64 n) {
  ObjState* os = r.os; bool anySym = false;
  if (os->sym) for (u64 i = 0; i < n; ++i) if (os->sym[off + i]) { anySym = true; if (os->sym[off + i] == UNDEF) { os = r.os = tab(s, r.stk).wr(r.id); os->sym[off + i] = mkNamedVar("undef#" + to_string(s.nUndef++), 8); } }
  if (!anySym && n <= 8) { u64 v = 0; memcpy(&v, &os->b[off], n); return VC(v); }
  E e = nullptr; for (u64 i = 0; i < n; ++i) { E b = symByte(os, off + i); if (!b) b = mkConst(os->b[off + i], 8); e = e ? mkConcat(b, e) : b; }
  return VE(e);
}
static void writeBytes(State& s, Ref& r, u64 off, u64 n, const Val& v) {
  ObjState* os = r.os = tab(s, r.stk).wr(r.id);
  if (v.conc()) { u64 x = v.c; for (u64 i = 0; i < n; ++i) { os->b[off + i] = i < 8 ? (u8)(x >> (8 * i)) : 0; if (os->sym) os->sym[off + i] = nullptr; } return; }
  E e = v.e; if (e->w < (int)(8 * n)) e = mkZExt(e, 8 * n); os->needSym();
  for (u64 i = 0; i < n; ++i) { E b = mkExtract(e, 8 * i, 8); if (b->isConst()) { os->b[off + i] = (u8)b->val; os->sym[off + i] = nullptr; } else os->sym[off + i] = b; }
}
static E sizeExpr(MO* m) { return m->sizeE ? m->sizeE : mkConst(m->cap, 64); }
// resolve an access of n bytes; returns reference and offset (off concrete or symbolic); in-bounds has been established
static bool constPart(State& s, E e, Ref& r) { if (e->k == K::Add && e->op[1]->isConst() && lookup(s, e->op[1]->c64(), r)) return true; return false; }
static void resolve(State& s, const Val& a, u64 n, bool write, Ref& r, Val& off, const char* what) {
  if (a.agg) unsup("vector pointer");
  if (a.conc()) {
    if (a.c < 4096) fatalErr(s, "memory", string("null pointer ") + what);
    if (!lookup(s, a.c, r)) fatalErr(s, "memory", string(what) + " through invalid or freed pointer 0x" + hexv(a.c));
    u64 o = a.c - r.mo->base;
    if (!r.mo->sizeE) { if (o > r.mo->cap || n > r.mo->cap - o) fatalErr(s, "memory", string("out-of-bounds ") + what + " of " + to_string(n) + " bytes at offset " + to_string((int64_t)o) + " of " + objName(r.mo)); }
    else { if (o > r.mo->cap || n > r.mo->cap - o) fatalErr(s, "memory", string("out-of-bounds ") + what + " beyond symbolic-size object"); checkE(s, mkUle(mkConst(o + n, 64), r.mo->sizeE), "memory", string("out-of-bounds ") + what + " of " + to_string(n) + " bytes at offset " + to_string(o) + " of " + objName(r.mo)); if (write) r.os = tab(s, r.stk).get(r.id).os; }
    if (write && r.mo->ro) fatalErr(s, "memory", "write to constant " + objName(r.mo));
    off = VC(o); return;
  }
  if (!constPart(s, a.e, r)) {
    u64 v = (u64)evalIn(s, a.e); if (v < 4096) { // maybe only null in this model
      E nz = mkUle(mkConst(4096, 64), a.e); checkE(s, nz, "memory", string("null pointer ") + what); v = (u64)evalIn(s, a.e); }
    if (!lookup(s, v, r)) { u64 x = concretize(s, a, 64); fatalErr(s, "memory", string(what) + " through invalid pointer 0x" + hexv(x)); }
    E inslot = mkUlt(mkSub(a.e, mkConst(r.mo->base - MARGIN, 64)), mkConst((u64)r.mo->slots * SLOT, 64));
    bool d; State* o; forkOn(s, inslot, d, o); if (o) pending.push_back(o);
  }
  E o = mkSub(a.e, mkConst(r.mo->base, 64)); E sz = sizeExpr(r.mo);
  E inb = r.mo->sizeE ? mkAnd(mkUle(mkConst(n, 64), sz), mkUle(o, mkSub(sz, mkConst(n, 64)))) : n > r.mo->cap ? mkBool(0) : mkUle(o, mkConst(r.mo->cap - n, 64));
  ++nBoundsQueries; checkE(s, inb, "memory", string("out-of-bounds ") + what + " of " + to_string(n) + " bytes of " + objName(r.mo));
  if (write && r.mo->ro) fatalErr(s, "memory", "write to constant " + objName(r.mo));
  Entry en = tab(s, r.stk).get(r.id); r.os = en.os; off = VE(o);
}
static void offRange(State& s, E o, u64 cap, u64 n, u64& lo, u64& hi, u64& stride) {
  lo = o->lo; hi = std::min<u64>(o->hi, cap - n); stride = 1; u64 kz = o->kz; int t = 0; while (t < 12 && (kz >> t & 1)) ++t; stride = 1ull << t; lo = (lo + stride - 1) / stride * stride; if (hi < lo) hi = lo;
  if (hi > lo + stride) { u64 cur = (u64)evalIn(s, o); Assign m = s.model; Res r = solve(s.cons, mkNot(mkEq(o, mkConst(cur, 64))), m); newEvalEpoch(); if (r == Res::Unsat && cur >= lo && cur <= hi) { lo = hi = cur; return; } }
  if ((hi - lo) / stride > 48) { // tighten with the solver (binary search)
    u64 cur = (u64)evalIn(s, o); u64 a = lo, b = cur; Assign m;
    while (a < b) { u64 mid = a + (b - a) / 2; m = s.model; Res r = solve(s.cons, mkUle(o, mkConst(mid, 64)), m); newEvalEpoch(); if (r == Res::Sat) b = std::min<u64>(mid, (u64)evalExpr(o, m)); else a = mid + 1; newEvalEpoch(); if (r == Res::Unknown) { a = b = lo; } }
    lo = a; a = cur; b = hi;
    while (a < b) { u64 mid = a + (b - a + 1) / 2; m = s.model; Res r = solve(s.cons, mkUle(mkConst(mid, 64), o), m); newEvalEpoch(); if (r == Res::Sat) a = std::max<u64>(mid, (u64)evalExpr(o, m)); else b = mid - 1; newEvalEpoch(); if (r == Res::Unknown) { a = b = hi; } }
    hi = a; lo = lo / stride * stride;
  }
}
static Val loadAt(State& s, Ref& r, const Val& off, u64 n) {
  if (off.conc()) return readBytes(s, r, off.c, n);
  u64 lo, hi, st; offRange(s, off.e, r.mo->cap, n, lo, hi, st); if ((hi - lo) / st > 20000) { concretize(s, off, 64); throw Retry{}; }
  if (lo == hi) return readBytes(s, r, lo, n);
  vector<E> lv; for (u64 k = lo; k <= hi; k += st) lv.push_back(toE(readBytes(s, r, k, n), 8 * n));
  E idx = mkSub(off.e, mkConst(lo, 64)); int sh = 0; while ((1ull << sh) < st) ++sh; if (sh) idx = mkBin(K::LShr, idx, mkConst(sh, 64));
  return VE(mkMux(lv, idx));
}
static void storeAt(State& s, Ref& r, const Val& off, u64 n, const Val& v) {
  if (off.conc()) { writeBytes(s, r, off.c, n, v); return; }
  u64 lo, hi, st; offRange(s, off.e, r.mo->cap, n, lo, hi, st); if ((hi - lo) / st > 4096) { concretize(s, off, 64); throw Retry{}; }
  ObjState* os = r.os = tab(s, r.stk).wr(r.id); os->needSym(); E e = toE(v, 8 * n); if (e->w < (int)(8 * n)) e = mkZExt(e, 8 * n);
  for (u64 k = lo; k <= hi; k += st) { E c = mkEq(off.e, mkConst(k, 64)); if (isFalse(c)) continue;
    for (u64 i = 0; i < n; ++i) { E old = os->sym[k + i]; if (old == UNDEF) old = mkNamedVar("undef#" + to_string(s.nUndef++), 8); if (!old) old = mkConst(os->b[k + i], 8); E nw = mkIte(c, mkExtract(e, 8 * i, 8), old); if (nw->isConst()) { os->b[k + i] = (u8)nw->val; os->sym[k + i] = nullptr; } else os->sym[k + i] = nw; } }
}
// data race detection (only with more than one thread)
static void raceCheck(State& s, const Ref& r, const Val& off, u64 n, bool write, bool atomic) {
  if (s.th.size() < 2) return; if (r.mo->kind == MK::Stack && false) return; int me = s.cur; VClock& vc = s.t().vc; u64 o = off.conc() ? off.c : (u64)evalIn(s, off.e);
  for (u64 i = 0; i < n; ++i) { Shadow& sh = s.shadow[r.mo->base + o + i];
    if (sh.wt >= 0 && sh.wt != me && !(atomic && sh.watomic)) { if (sh.wc > (sh.wt < (int)vc.size() ? vc[sh.wt] : 0)) fatalErr(s, "race", string("data race: ") + (write ? "write" : "read") + " conflicts with an unordered write by another thread, " + objName(r.mo) + " offset " + to_string(o + i)); }
    if (write) { for (auto& p : sh.rd) if (p.first != me && p.second > (p.first < (int)vc.size() ? vc[p.first] : 0) && !atomic) fatalErr(s, "race", "data race: write conflicts with an unordered read by another thread, " + objName(r.mo) + " offset " + to_string(o + i));
      sh.wt = me; sh.wc = vc[me]; sh.watomic = atomic; sh.rd.clear(); }
    else if (!atomic) { bool f = false; for (auto& p : sh.rd) if (p.first == me) { p.second = vc[me]; f = true; } if (!f) sh.rd.push_back({me, vc[me]}); } }
}
static Val loadN(State& s, const Val& a, u64 n, bool atomic = false) { Ref r; Val off; resolve(s, a, n, false, r, off, "read"); raceCheck(s, r, off, n, false, atomic); return loadAt(s, r, off, n); }
static void storeN(State& s, const Val& a, u64 n, const Val& v, bool atomic = false) { Ref r; Val off; resolve(s, a, n, true, r, off, "write"); raceCheck(s, r, off, n, true, atomic); storeAt(s, r, off, n, v); }
static Val addV(const Val& a, u64 k) { return a.conc() ? VC(a.c + k) : VE(mkAdd(a.e, mkConst(k, 64))); }

// ------------------------------------------------------------------ types
static int wOf(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80; return 0; }
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned nElem(Type* t) { if (auto* S = dyn_cast<StructType>(t)) return S->getNumElements(); if (auto* A = dyn_cast<ArrayType>(t)) return A->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* elemTy(Type* t, unsigned i) { if (auto* S = dyn_cast<StructType>(t)) return S->getElementType(i); if (auto* A = dyn_cast<ArrayType>(t)) return A->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 elemOff(Type* t, unsigned i) { if (auto* S = dyn_cast<StructType>(t)) return DL->getStructLayout(S)->getElementOffset(i); if (auto* A = dyn_cast<ArrayType>(t)) return i * DL->getTypeAllocSize(A->getElementType()); return i * DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()); }
static Val zeroVal(Type* t) { if (!isAgg(t)) { if (wOf(t) > 64) return VE(mkConst(0, wOf(t))); return VC(0); } vector<Val> v; for (unsigned i = 0; i < nElem(t); ++i) v.push_back(zeroVal(elemTy(t, i))); return VA(v); }
static Val loadTy(State& s, const Val& a, Type* t, bool atomic = false) {
  if (!isAgg(t)) { int w = wOf(t); if (!w) unsup("load of type"); u64 n = DL->getTypeStoreSize(t); Val v = loadN(s, a, n, atomic); if (w < (int)(8 * n)) { if (v.conc()) v.c &= (u64)maskw(w); else v = VE(mkExtract(v.e, 0, w)); } return v; }
  vector<Val> r; if (t->isVectorTy() && wOf(elemTy(t, 0)) < 8) { unsigned k = nElem(t), ew = wOf(elemTy(t, 0)); Val v = loadN(s, a, DL->getTypeStoreSize(t)); E e = toE(v, 8 * DL->getTypeStoreSize(t)); for (unsigned i = 0; i < k; ++i) r.push_back(VE(mkExtract(e, i * ew, ew))); return VA(r); }
  for (unsigned i = 0; i < nElem(t); ++i) r.push_back(loadTy(s, addV(a, elemOff(t, i)), elemTy(t, i))); return VA(r);
}
static void storeTy(State& s, const Val& a, Type* t, const Val& v, bool atomic = false) {
  if (!isAgg(t)) { u64 n = DL->getTypeStoreSize(t); storeN(s, a, n, v, atomic); return; }
  if (t->isVectorTy() && wOf(elemTy(t, 0)) < 8) { E e = nullptr; unsigned ew = wOf(elemTy(t, 0)); for (unsigned i = 0; i < nElem(t); ++i) { E x = toE((*v.agg)[i], ew); e = e ? mkConcat(x, e) : x; } u64 n = DL->getTypeStoreSize(t); storeN(s, a, n, VE(mkZExt(e, 8 * n))); return; }
  for (unsigned i = 0; i < nElem(t); ++i) storeTy(s, addV(a, elemOff(t, i)), elemTy(t, i), (*v.agg)[i]);
}

// ------------------------------------------------------------------ constants
static u64 addrOfGlobal(const GlobalValue* g) { 
  if (auto* f = dyn_cast<Function>(g)) return funcAddr.at(f); if (auto* v = dyn_cast<GlobalVariable>(g)) return globAddr.at(v);
  if (auto* al = dyn_cast<GlobalAlias>(g)) { auto* o = al->getAliaseeObject(); return addrOfGlobal(o); } abort(); }
static Val evalConst(const Constant* c);
// a factor which is provably small on this path is represented with as few bits as it needs
static Val narrow(State& s, const Val& v) {
  E e = v.e; static const int W[] = {1, 4, 8, 16}; u64 cur = (u64)evalIn(s, e);
  for (int b : W) { u64 lim = ((u64)1 << b) - 1; if (e->hi <= lim) return v; if (cur > lim) continue; Assign m = s.model; Res r = solve(s.cons, mkUlt(mkConst(lim, e->w), e), m); newEvalEpoch(); if (r == Res::Unsat) return VE(mkZExt(mkExtract(e, 0, b), e->w)); if (r == Res::Unknown) return v; cur = (u64)evalExpr(e, m); newEvalEpoch(); }
  return v;
}
static Val castOp(unsigned op, const Val& v, Type* from, Type* to);
static Val binOp(unsigned op, const Val& a, const Val& b, int w);
static Val evalConst(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return VC(ci->getZExtValue()); u128 v = ((u128)ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0); return VE(mkConst(v, ci->getBitWidth())); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isX86_FP80Ty()) { APInt b = cf->getValueAPF().bitcastToAPInt(); return VE(mkConst(((u128)b.extractBitsAsZExtValue(16, 64) << 64) | b.extractBitsAsZExtValue(64, 0), 80)); } return VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return VC(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
  if (auto* g = dyn_cast<GlobalValue>(c)) return VC(addrOfGlobal(g));
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(evalConst(cd->getElementAsConstant(i))); return VA(v); }
  if (isa<ConstantAggregate>(c)) { vector<Val> v; for (unsigned i = 0; i < c->getNumOperands(); ++i) v.push_back(evalConst(cast<Constant>(c->getOperand(i)))); return VA(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) unsup("constant gep"); Val b = evalConst(cast<Constant>(gep->getPointerOperand())); return VC(b.c + off.getZExtValue()); }
    if (ce->isCast()) return castOp(ce->getOpcode(), evalConst(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    if (Instruction::isBinaryOp(ce->getOpcode())) return binOp(ce->getOpcode(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), wOf(t));
  }
  if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) return VC(addrOfGlobal(de->getGlobalValue()));
  string str; raw_string_ostream os(str); c->print(os); std::cerr << "unsupported constant: " << str << "\n"; return zeroVal(t);
}
static int constOp(const Constant* c) { auto it = constIdx.find(c); if (it != constIdx.end()) return ~it->second; int i = consts.size(); consts.push_back(evalConst(c)); constIdx[c] = i; return ~i; }
static void initMem(State& s, u64 addr, const Constant* c) {
  Type* t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Ref r; lookup(s, addr, r); StringRef d = cd->getRawDataValues(); memcpy(&r.os->b[addr - r.mo->base], d.data(), d.size()); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) initMem(s, addr + elemOff(t, i), cast<Constant>(c->getOperand(i))); return; }
  Val v = evalConst(c); Ref r; lookup(s, addr, r); u64 n = DL->getTypeStoreSize(t); if (v.agg) { storeTy(s, VC(addr), t, v); return; }
  writeBytes(s, r, addr - r.mo->base, n, v);
}

// ------------------------------------------------------------------ scalar operations
static Val binOp(unsigned op, const Val& a, const Val& b, int w) {
  if (a.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(binOp(op, (*a.agg)[i], (*b.agg)[i], w)); return VA(r); }
  K k; bool fp = false;
  switch (op) { case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break; case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break;
    case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break; case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; case Instruction::AShr: k = K::AShr; break;
    case Instruction::FAdd: k = K::FAdd; fp = true; break; case Instruction::FSub: k = K::FSub; fp = true; break; case Instruction::FMul: k = K::FMul; fp = true; break; case Instruction::FDiv: k = K::FDiv; fp = true; break; case Instruction::FRem: k = K::FRem; fp = true; break; default: unsup("binop"); }
  if (fp && w > 64) unsup("long double");
  if (a.conc() && b.conc() && w <= 64) {
    u64 m = (u64)maskw(w);
    switch (k) { case K::Add: return VC((a.c + b.c) & m); case K::Sub: return VC((a.c - b.c) & m); case K::Mul: return VC((a.c * b.c) & m); case K::And: return VC(a.c & b.c); case K::Or: return VC(a.c | b.c); case K::Xor: return VC(a.c ^ b.c); default: return VC((u64)evalOp(k, w, w, a.c, b.c, 0, 0)); }
  }
  if (fp) { if (k == K::FRem) unsup("symbolic frem"); return VE(mkFP2(k, toE(a, w), toE(b, w), w)); }
  return VE(mkBin(k, toE(a, w), toE(b, w)));
}
static Val castOp(unsigned op, const Val& v, Type* from, Type* to) {
  if (op == Instruction::BitCast && (isAgg(from) || isAgg(to))) { // via flat bits
    if (from == to) return v; unsigned n = isAgg(from) ? nElem(from) : 1; E e = nullptr; for (unsigned i = 0; i < n; ++i) { E x = isAgg(from) ? toE((*v.agg)[i], wOf(elemTy(from, i))) : toE(v, wOf(from)); e = e ? mkConcat(x, e) : x; }
    if (!isAgg(to)) return VE(e); vector<Val> r; unsigned ew = wOf(elemTy(to, 0)); for (unsigned i = 0; i < nElem(to); ++i) r.push_back(VE(mkExtract(e, i * ew, ew))); return VA(r); }
  if (v.agg) { vector<Val> r; for (size_t i = 0; i < v.agg->size(); ++i) r.push_back(castOp(op, (*v.agg)[i], elemTy(from, i), elemTy(to, i))); return VA(r); }
  int fw = wOf(from), tw = wOf(to); if (fw == 80 || tw == 80) { 
    unsup("long double"); }
  switch (op) {
  case Instruction::Trunc: if (v.conc()) return VC(v.c & (u64)maskw(tw)); return VE(mkExtract(v.e, 0, tw));
  case Instruction::ZExt: if (v.conc() && tw <= 64) return v; return VE(mkZExt(toE(v, fw), tw));
  case Instruction::SExt: return VE(mkSExt(toE(v, fw), tw));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (tw < fw) { if (v.conc()) return VC(v.c & (u64)maskw(tw)); return VE(mkExtract(v.e, 0, tw)); } if (v.conc()) return v; return VE(mkZExt(v.e, tw));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  case Instruction::FPExt: return VE(mkFP1(K::FPExt, toE(v, fw), tw)); case Instruction::FPTrunc: return VE(mkFP1(K::FPTrunc, toE(v, fw), tw));
  // conversions to narrow integers go through 32 bits, as on x86: a value out of range is truncated
  case Instruction::FPToSI: case Instruction::FPToUI: { if (tw < 32) return VE(mkExtract(mkFP1(K::FPToSI, toE(v, fw), 32), 0, tw)); return VE(mkFP1(op == Instruction::FPToSI ? K::FPToSI : K::FPToUI, toE(v, fw), tw)); }
  case Instruction::SIToFP: return VE(mkFP1(K::SIToFP, toE(v, fw), tw)); case Instruction::UIToFP: return VE(mkFP1(K::UIToFP, toE(v, fw), tw));
  }
  unsup("cast");
}
static E fcmpE(unsigned p, E a, E b) {
  E uno = nullptr; auto U = [&] { if (!uno) uno = mkFP2(K::FUno, a, b, 1); return uno; };
  auto eq = [&] { return mkFP2(K::FOeq, a, b, 1); }; auto lt = [&](E x, E y) { return mkFP2(K::FOlt, x, y, 1); }; auto le = [&](E x, E y) { return mkFP2(K::FOle, x, y, 1); };
  switch (p) { case CmpInst::FCMP_FALSE: return mkBool(0); case CmpInst::FCMP_TRUE: return mkBool(1); case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b); case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(U()), mkNot(eq())); case CmpInst::FCMP_ORD: return mkNot(U()); case CmpInst::FCMP_UNO: return U(); case CmpInst::FCMP_UEQ: return mkOr(U(), eq()); case CmpInst::FCMP_ULT: return mkNot(le(b, a)); case CmpInst::FCMP_ULE: return mkNot(lt(b, a)); case CmpInst::FCMP_UGT: return mkNot(le(a, b)); case CmpInst::FCMP_UGE: return mkNot(lt(a, b)); case CmpInst::FCMP_UNE: return mkNot(eq()); }
  unsup("fcmp");
}
static Val cmpOp(unsigned p, const Val& a, const Val& b, int w) {
  if (a.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(cmpOp(p, (*a.agg)[i], (*b.agg)[i], w)); return VA(r); }
  if (p <= CmpInst::LAST_FCMP_PREDICATE) { if (w > 64) unsup("long double"); return VE(fcmpE(p, toE(a, w), toE(b, w))); }
  if (a.conc() && b.conc() && w <= 64) { int64_t x = (int64_t)(a.c << (64 - w)) >> (64 - w), y = (int64_t)(b.c << (64 - w)) >> (64 - w);
    switch (p) { case CmpInst::ICMP_EQ: return VC(a.c == b.c); case CmpInst::ICMP_NE: return VC(a.c != b.c); case CmpInst::ICMP_ULT: return VC(a.c < b.c); case CmpInst::ICMP_ULE: return VC(a.c <= b.c); case CmpInst::ICMP_UGT: return VC(a.c > b.c); case CmpInst::ICMP_UGE: return VC(a.c >= b.c); case CmpInst::ICMP_SLT: return VC(x < y); case CmpInst::ICMP_SLE: return VC(x <= y); case CmpInst::ICMP_SGT: return VC(x > y); case CmpInst::ICMP_SGE: return VC(x >= y); } }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return VE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return VE(mkUle(x, y)); case CmpInst::ICMP_UGT: return VE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return VE(mkUle(y, x));
    case CmpInst::ICMP_SLT: return VE(mkBin(K::Slt, x, y)); case CmpInst::ICMP_SLE: return VE(mkBin(K::Sle, x, y)); case CmpInst::ICMP_SGT: return VE(mkBin(K::Slt, y, x)); case CmpInst::ICMP_SGE: return VE(mkBin(K::Sle, y, x)); }
  unsup("icmp");
}
static Val iteV(E c, const Val& a, const Val& b, Type* t) {
  if (a.agg || b.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(iteV(c, (*a.agg)[i], (*b.agg)[i], elemTy(t, i))); return VA(r); }
  int w = wOf(t); return VE(mkIte(c, toE(a, w), toE(b, w)));
}

// ------------------------------------------------------------------ decoding
static KFunction* kf(Function* F) { auto& k = kfuncs[F]; if (!k) { k = new KFunction; k->F = F; } return k; }
static void decode(KFunction* k) {
  if (k->decoded) return; k->decoded = true; std::unordered_map<const Value*, int> reg; int n = 0;
  for (auto& a : k->F->args()) reg[&a] = n++;
  int bi = 0; for (auto& B : *k->F) { k->bbIdx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  k->nregs = n;
  for (auto& B : *k->F) { k->bbStart.push_back(k->insts.size());
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst ki; ki.I = &I; ki.op = I.getOpcode(); ki.dest = I.getType()->isVoidTy() ? -1 : reg[&I]; ki.bb = k->bbIdx[&B];
      for (auto& o : I.operands()) { Value* v = o.get(); if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) ki.ops.push_back(0); else if (auto* c = dyn_cast<Constant>(v)) ki.ops.push_back(constOp(c)); else ki.ops.push_back(reg.at(v)); }
      Type* t = I.getType(); ki.w = wOf(t->isVectorTy() ? elemTy(t, 0) : t);
      if (auto* c = dyn_cast<CmpInst>(&I)) { Type* ot = c->getOperand(0)->getType(); ki.w = wOf(ot->isVectorTy() ? elemTy(ot, 0) : ot); }
      if (auto* b = dyn_cast<BranchInst>(&I)) { for (unsigned i = 0; i < b->getNumSuccessors(); ++i) ki.nextBB[i] = k->bbIdx[b->getSuccessor(i)]; }
      if (auto* b = dyn_cast<InvokeInst>(&I)) { ki.nextBB[0] = k->bbIdx[b->getNormalDest()]; ki.nextBB[1] = k->bbIdx[b->getUnwindDest()]; }
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { 
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* idx = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 es = it.getSequentialElementStride(*DL); if (auto* ci = dyn_cast<ConstantInt>(idx)) ki.gepOff += (u64)ci->getSExtValue() * es; else { ki.gepIdx.push_back({isa<Constant>(idx) ? constOp(cast<Constant>(idx)) : reg.at(idx), es}); ki.gepW.push_back(wOf(idx->getType())); } } }
      k->insts.push_back(ki);
    } }
  k->covered.assign(k->insts.size(), 0);
}

// ------------------------------------------------------------------ control transfer
static void gotoBB(State& s, int bb) {
  Frame& f = s.fr(); int from = f.f->insts[f.ip].bb; f.ip = f.f->bbStart[bb]; f.prevBB = from;
  // phis
  KFunction* k = f.f; if (k->insts[f.ip].op == Instruction::PHI) {
    static vector<pair<int, Val>> tmp; tmp.clear(); int ip = f.ip; 
    for (; k->insts[ip].op == Instruction::PHI; ++ip) { auto* P = cast<PHINode>(k->insts[ip].I); int which = -1; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) if (k->bbIdx[P->getIncomingBlock(i)] == from) { which = i; break; } tmp.push_back({k->insts[ip].dest, read(s, k->insts[ip].ops[which])}); k->covered[ip] = 1; }
    for (auto& p : tmp) f.regs[p.first] = p.second; f.ip = ip; }
}
static void pushCall(State& s, Function* F, const vector<Val>& args, bool ignoreRet, const CallBase* cb) {
  KFunction* k = kf(F); decode(k); ++k->calls; if (s.stack().size() > 2000) fatalErr(s, "stack-overflow", "recursion deeper than 2000 frames");
  Frame f; f.f = k; f.ip = 0; f.prevBB = -1; f.regs.resize(k->nregs); f.ignoreRet = ignoreRet; unsigned na = F->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); ++i) { f.regs[i] = args[i];
    if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); u64 n = DL->getTypeAllocSize(t); u64 a = allocObj(s, n, nullptr, MK::Stack, "byval", true); f.allocas.push_back((a - STKBASE) >> 20); Ref d, sr; Val so; resolve(s, args[i], n, false, sr, so, "read (byval)"); lookup(s, a, d); ObjState* os = tab(s, true).wr(d.id); if (!so.conc()) unsup("symbolic byval pointer"); os->needSym(); for (u64 j = 0; j < n; ++j) { os->b[j] = sr.os->b[so.c + j]; os->sym[j] = symByte(sr.os, so.c + j); } f.regs[i] = VC(a); } }
  if (F->isVarArg()) for (unsigned i = na; i < args.size(); ++i) f.varargs.push_back(args[i]);
  s.stack().push_back(std::move(f));
}
static void finishCall(State& s, const Val* ret) { // current frame's ip is at a call/invoke that completed
  Frame& f = s.fr(); KInst& ki = f.f->insts[f.ip]; if (ki.dest >= 0 && ret) f.regs[ki.dest] = *ret;
  if (ki.op == Instruction::Invoke) gotoBB(s, ki.nextBB[0]); else ++f.ip;
}
static void popFrame(State& s) { Frame& f = s.fr(); for (auto it = f.allocas.rbegin(); it != f.allocas.rend(); ++it) { Entry e = s.stk.get(*it); if (e.mo) { Ref r{true, *it, e.mo, e.os}; freeObj(s, r); } if (s.th.size() == 1 && *it < s.nextStk) s.nextStk = *it; } s.stack().pop_back(); }

// ------------------------------------------------------------------ exceptions / RTTI
static const GlobalVariable* tiGlobal(u64 a) { auto it = globByAddr.find(a); return it == globByAddr.end() ? nullptr : it->second; }
struct TIBase { u64 ti; int64_t off; bool virt; bool pub; };
static int tiKind(const GlobalVariable* g) { if (!g->hasInitializer()) return -1; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return -1; Value* v = cs->getOperand(0)->stripPointerCasts(); if (auto* ge = dyn_cast<GEPOperator>(cs->getOperand(0))) v = ge->getPointerOperand(); else if (auto* ce = dyn_cast<ConstantExpr>(cs->getOperand(0))) v = ce->getOperand(0); StringRef n = v->getName(); if (n.contains("__vmi_class")) return 2; if (n.contains("__si_class")) return 1; if (n.contains("__class_type")) return 0; if (n.contains("__pointer_type")) return 3; return 4; }
static vector<TIBase> tiBases(u64 ti) {
  vector<TIBase> r; auto* g = tiGlobal(ti); if (!g) return r; int k = tiKind(g); if (k < 1 || k > 2) return r; auto* cs = cast<ConstantStruct>(g->getInitializer());
  if (k == 1) { r.push_back({evalConst(cast<Constant>(cs->getOperand(2))).c, 0, false, true}); return r; }
  unsigned n = cs->getNumOperands(); for (unsigned i = 4; i + 1 < n; i += 2) { int64_t f = (int64_t)evalConst(cast<Constant>(cs->getOperand(i + 1))).c; r.push_back({evalConst(cast<Constant>(cs->getOperand(i))).c, f >> 8, (f & 1) != 0, (f & 2) != 0}); } return r;
}
// find base `want` in class `ti` at object address obj; collects addresses
static void findBase(State& s, u64 ti, u64 obj, u64 want, vector<u64>& out) {
  if (ti == want) { out.push_back(obj); return; }
  for (auto& b : tiBases(ti)) { u64 a; if (b.virt) { Val vp = loadN(s, VC(obj), 8); Val vo = loadN(s, VC(vp.c + b.off), 8); a = obj + vo.c; } else a = obj + b.off; findBase(s, b.ti, a, want, out); }
}
static bool catchMatches(State& s, u64 thrown, u64 obj, u64 want, u64& adj) {
  adj = obj; if (thrown == want) return true; auto* g = tiGlobal(thrown); auto* w = tiGlobal(want); if (!g || !w) return false;
  int k = tiKind(g); if (k == 3) { adj = obj; return false; } vector<u64> out; findBase(s, thrown, obj, want, out); std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); if (out.size() == 1) { adj = out[0]; return true; } return false;
}
static string tiName(u64 ti) { auto* g = tiGlobal(ti); if (!g) return "?"; return llvm::demangle(g->getName().str()); }
static std::unordered_map<u64, int> typeIds; static int typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
static void unwind(State& s, u64 exc) { // raise exc from the current frame's call instruction
  ExcInfo& ei = s.exc[exc]; bool first = true; State snapshot(s);
  while (true) {
    if (s.stack().empty()) { string n = tiName(ei.ti); snapshot.cur = s.cur; reportError(snapshot, "uncaught-exception", "exception of type " + n + " leaves the harness", snapshot.model); ++pathsErr; throw Kill{"error:uncaught", false}; }
    Frame& f = s.fr(); KInst& ki = f.f->insts[f.ip];
    if (!first && f.ignoreRet && false) {}
    if (ki.op == Instruction::Invoke) {
      int bb = ki.nextBB[1]; LandingPadInst* lp = cast<InvokeInst>(ki.I)->getLandingPadInst(); int sel = -1; u64 adj = exc; bool enter = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !enter; ++i) {
        if (lp->isCatch(i)) { u64 want = evalConst(lp->getClause(i)).c; if (want == 0) { sel = typeId(0); enter = true; } else if (catchMatches(s, ei.ti, exc, want, adj)) { sel = typeId(want); enter = true; } }
        else { auto* arr = lp->getClause(i); unsigned n = arr->getType()->getArrayNumElements(); if (n == 0) { sel = -1; enter = true; } } }
      if (!enter && lp->isCleanup()) { enter = true; sel = 0; adj = exc; }
      if (enter) { ei.adj = adj; gotoBB(s, bb); Frame& f2 = s.fr(); KInst& l = f2.f->insts[f2.ip]; if (l.op != Instruction::LandingPad) unsup("landingpad"); f2.f->covered[f2.ip] = 1; f2.regs[l.dest] = VA({VC(exc), VC((u32)sel)}); ++f2.ip; return; }
    }
    if (f.f->F->doesNotThrow()) { snapshot.cur = s.cur; reportError(snapshot, "terminate", "exception of type " + tiName(ei.ti) + " escapes a noexcept function " + llvm::demangle(f.f->F->getName().str()), snapshot.model); ++pathsErr; throw Kill{"error:terminate", false}; }
    popFrame(s); first = false;
  }
}

// ------------------------------------------------------------------ scheduling
static bool runnable(State& s, int i) { Thread& t = s.th[i]; if (t.done || !t.started) return false; if (t.waitMutex) { auto it = s.mutexOwner.find(t.waitMutex); if (it != s.mutexOwner.end() && it->second) return false; } if (t.waitJoin >= 0 && !s.th[t.waitJoin].done) return false; if (t.waitCond) return false; return true; }
static void clearWait(State& s) { s.t().waitMutex = 0; s.t().waitJoin = -1; }
// reference counts of shared_ptr: their operations commute, so no switch is needed there (the happens-before edges they create are kept)
static bool refCount(Instruction* I) { static std::unordered_map<Instruction*, bool> c; auto it = c.find(I); if (it != c.end()) return it->second; bool r = false; if (auto* d = I->getDebugLoc().get()) { llvm::StringRef f = d->getFilename(); r = f.ends_with("atomicity.h") || f.ends_with("shared_ptr_base.h"); } return c[I] = r; }
static void schedulePoint(State& s) { // before a synchronisation operation of the current thread: allow others to run first
  if (s.th.size() < 2 || s.schedDone) { s.schedDone = false; return; }
  if (s.switches < maxSwitches) for (int i = 0; i < (int)s.th.size(); ++i) if (i != s.cur && runnable(s, i)) { State* o = new State(s); o->id = nextStateId++; o->cur = i; ++o->switches; ++totalForks; o->schedDone = true; o->t().waitJoin = -1; pending.push_back(o); }
  if (s.switches >= maxSwitches) ++incomplete["context-switch-bound(" + to_string(maxSwitches) + ")"];
  s.schedDone = false;
}
static void blockAndSwitch(State& s) { // current thread cannot continue: fork over all runnable ones
  vector<int> c; for (int i = 0; i < (int)s.th.size(); ++i) if (i != s.cur && runnable(s, i)) c.push_back(i);
  if (c.empty()) { if (runnable(s, s.cur)) return; fatalErr(s, "deadlock", "no runnable thread"); }
  for (size_t k = 1; k < c.size(); ++k) { State* o = new State(s); o->id = nextStateId++; o->cur = c[k]; ++totalForks; o->schedDone = true; pending.push_back(o); }
  s.cur = c[0]; s.schedDone = true; throw Retry{};
}
static void vcJoin(VClock& a, const VClock& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void acquire(State& s, u64 a) { if (s.th.size() > 1) { auto it = s.syncVC.find(a); if (it != s.syncVC.end()) vcJoin(s.t().vc, it->second); } }
static void release(State& s, u64 a) { if (s.th.size() > 1) { vcJoin(s.syncVC[a], s.t().vc); if ((int)s.t().vc.size() <= s.cur) s.t().vc.resize(s.cur + 1, 0); ++s.t().vc[s.cur]; } }

#include "builtins.inc"

// ------------------------------------------------------------------ instruction execution
static void step(State& s) {
  Frame& f = s.fr(); KInst& ki = f.f->insts[f.ip]; f.f->covered[f.ip] = 1; ++s.steps; ++totalSteps;
  auto R = [&](int i) -> Val { return read(s, ki.ops[i]); };
  Instruction* I = ki.I;
  switch (ki.op) {
  case Instruction::Ret: {
    bool has = I->getNumOperands() > 0; Val v; if (has) v = R(0); bool ign = f.ignoreRet; popFrame(s);
    if (s.stack().empty()) { Thread& t = s.t(); t.done = true; if (s.cur == 0) throw Kill{"done", false}; release(s, 0xdead0000ull + s.cur); blockAndSwitch(s); return; }
    finishCall(s, (has && !ign) ? &v : nullptr); return; }
  case Instruction::Br: {
    if (I->getNumOperands() == 1) { gotoBB(s, ki.nextBB[0]); return; }
    Val c = R(0); if (c.conc()) { gotoBB(s, ki.nextBB[c.c ? 0 : 1]); return; }
    bool d; State* o; forkOn(s, c.e, d, o); if (o) { gotoBB(*o, ki.nextBB[d ? 1 : 0]); pending.push_back(o); } gotoBB(s, ki.nextBB[d ? 0 : 1]); return; }
  case Instruction::Switch: {
    auto* sw = cast<SwitchInst>(I); Val c = R(0); int w = wOf(sw->getCondition()->getType());
    if (c.conc()) { BasicBlock* d = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; } gotoBB(s, f.f->bbIdx[d]); return; }
    // group by successor
    vector<pair<BasicBlock*, E>> g; E any = mkBool(0); auto add = [&](BasicBlock* b, E e) { for (auto& p : g) if (p.first == b) { p.second = mkOr(p.second, e); return; } g.push_back({b, e}); };
    for (auto& cs : sw->cases()) { E e = mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)); any = mkOr(any, e); add(cs.getCaseSuccessor(), e); } add(sw->getDefaultDest(), mkNot(any));
    BasicBlock* mine = nullptr; E mineE = nullptr; vector<State*> outs; State base(s);
    for (auto& p : g) { if (!mine && evalExpr(p.second, base.model) == 1) { mine = p.first; mineE = p.second; continue; }
      if (isFalse(p.second)) continue; Assign m2 = base.model; Res r = solve(base.cons, p.second, m2); newEvalEpoch(); if (r == Res::Unsat) continue; if (r == Res::Unknown) { ++incomplete["solver-unknown"]; continue; }
      State* o = new State(base); o->id = nextStateId++; o->model = m2; addCons(*o, p.second); ++totalForks; gotoBB(*o, f.f->bbIdx[p.first]); pending.push_back(o); newEvalEpoch(); }
    addCons(s, mineE); gotoBB(s, f.f->bbIdx[mine]); return; }
  case Instruction::Unreachable: fatalErr(s, "unreachable", "reached 'unreachable' (undefined behaviour: missing return or impossible case)");
  case Instruction::Invoke: case Instruction::Call: doCall(s, ki); return;
  case Instruction::Resume: { Val v = R(0); u64 exc = (*v.agg)[0].c; 
      // continue unwinding in the caller
      popFrame(s); if (s.stack().empty()) { reportError(s, "uncaught-exception", "exception of type " + tiName(s.exc[exc].ti) + " leaves the harness", s.model); ++pathsErr; throw Kill{"error:uncaught", false}; } unwind(s, exc); return; }
  case Instruction::LandingPad: unsup("landingpad reached");
  case Instruction::PHI: unsup("phi");
  case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(a->getAllocatedType()); Val c = R(0); n *= concretize(s, c, 64); u64 p = allocObj(s, n, nullptr, MK::Stack, a->getName().str(), true); s.fr().allocas.push_back((p - STKBASE) >> 20); s.fr().regs[ki.dest] = VC(p); break; }
  case Instruction::Load: { auto* l = cast<LoadInst>(I); bool at = l->isAtomic(); Val a = R(0); if (at && s.th.size() > 1 && !refCount(I)) { schedulePoint(s); } Val v = loadTy(s, a, I->getType(), at); if (at && s.th.size() > 1) { acquire(s, a.c); } s.fr().regs[ki.dest] = v; break; }
  case Instruction::Store: { auto* l = cast<StoreInst>(I); bool at = l->isAtomic(); Val a = R(1), v = R(0); if (at && s.th.size() > 1 && !refCount(I)) { schedulePoint(s); } storeTy(s, a, l->getValueOperand()->getType(), v, at); if (at && s.th.size() > 1) release(s, a.c); break; }
  case Instruction::GetElementPtr: {
    Val b = R(0); if (I->getType()->isVectorTy()) unsup("vector gep"); u64 cc = ki.gepOff; E e = nullptr; if (b.conc()) cc += b.c; else e = b.e;
    for (size_t i = 0; i < ki.gepIdx.size(); ++i) { Val x = read(s, ki.gepIdx[i].first); int w = ki.gepW[i]; u64 st = ki.gepIdx[i].second; if (x.conc()) { int64_t v = w < 64 ? (int64_t)(x.c << (64 - w)) >> (64 - w) : (int64_t)x.c; cc += (u64)v * st; } else { E t = mkBin(K::Mul, mkSExt(x.e, 64), mkConst(st, 64)); e = e ? mkAdd(e, t) : t; } }
    f.regs[ki.dest] = e ? VE(mkAdd(e, mkConst(cc, 64))) : VC(cc); break; }
  case Instruction::ICmp: case Instruction::FCmp: f.regs[ki.dest] = cmpOp(cast<CmpInst>(I)->getPredicate(), R(0), R(1), ki.w); break;
  case Instruction::Select: { Val c = R(0); if (c.agg) { vector<Val> r; Val a = R(1), b = R(2); for (size_t i = 0; i < c.agg->size(); ++i) { Val ci = (*c.agg)[i]; r.push_back(iteV(toE(ci, 1), (*a.agg)[i], (*b.agg)[i], elemTy(I->getType(), i))); } f.regs[ki.dest] = VA(r); break; }
    if (c.conc()) { f.regs[ki.dest] = R(c.c ? 1 : 2); break; } if (s.consIds.count(c.e->id)) { f.regs[ki.dest] = R(1); break; } if (s.consIds.count(mkNot(c.e)->id)) { f.regs[ki.dest] = R(2); break; } f.regs[ki.dest] = iteV(c.e, R(1), R(2), I->getType()); break; }
  case Instruction::Freeze: f.regs[ki.dest] = R(0); break;
  case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); Val v = R(0); for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; } f.regs[ki.dest] = v; break; }
  case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(I); std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val { if (d == x->getNumIndices()) return R(1); vector<Val> c = *a.agg; c[x->getIndices()[d]] = ins(c[x->getIndices()[d]], d + 1); return VA(c); }; f.regs[ki.dest] = ins(R(0), 0); break; }
  case Instruction::ExtractElement: { Val v = R(0), i = R(1); if (!i.conc()) { vector<E> lv; for (auto& x : *v.agg) lv.push_back(toE(x, ki.w)); f.regs[ki.dest] = VE(mkMux(lv, i.e)); break; } if (i.c >= v.agg->size()) unsup("extractelement"); f.regs[ki.dest] = (*v.agg)[i.c]; break; }
  case Instruction::InsertElement: { Val v = R(0), x = R(1), i = R(2); if (!i.conc()) unsup("symbolic insertelement"); vector<Val> c = *v.agg; c[i.c] = x; f.regs[ki.dest] = VA(c); break; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = R(0), b = R(1); vector<Val> r; size_t n = a.agg->size(); for (int m : sv->getShuffleMask()) { if (m < 0) r.push_back(zeroVal(elemTy(I->getType(), 0))); else r.push_back((size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } f.regs[ki.dest] = VA(r); break; }
  case Instruction::FNeg: { Val a = R(0); std::function<Val(const Val&)> neg = [&](const Val& x) -> Val { if (x.agg) { vector<Val> r; for (auto& y : *x.agg) r.push_back(neg(y)); return VA(r); } return VE(mkFNeg(toE(x, ki.w))); }; f.regs[ki.dest] = neg(a); break; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = R(0), b = R(1); if (!a.agg) { 
      checkE(s, mkNot(mkEq(toE(b, ki.w), mkConst(0, ki.w))), "div-by-zero", "integer division by zero");
      if (ki.op == Instruction::SDiv || ki.op == Instruction::SRem) if (!(b.conc() && b.c != (u64)maskw(ki.w))) { E ov = mkAnd(mkEq(toE(a, ki.w), mkConst((u128)1 << (ki.w - 1), ki.w)), mkEq(toE(b, ki.w), mkConst(maskw(ki.w), ki.w))); checkE(s, mkNot(ov), "div-overflow", "signed division overflow (INT_MIN / -1)"); } }
    s.fr().regs[ki.dest] = binOp(ki.op, a, b, ki.w); break; }
  case Instruction::AtomicRMW: { auto* x = cast<AtomicRMWInst>(I); Val a = R(0), v = R(1); if (s.th.size() > 1 && !refCount(I)) schedulePoint(s); int w = ki.w; u64 n = DL->getTypeStoreSize(I->getType()); Val old = loadTy(s, a, I->getType(), true); Val nv;
    switch (x->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binOp(Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: nv = binOp(Instruction::Sub, old, v, w); break; case AtomicRMWInst::And: nv = binOp(Instruction::And, old, v, w); break; case AtomicRMWInst::Or: nv = binOp(Instruction::Or, old, v, w); break; case AtomicRMWInst::Xor: nv = binOp(Instruction::Xor, old, v, w); break;
      case AtomicRMWInst::UMax: nv = VE(mkUMax(toE(old, w), toE(v, w))); break; case AtomicRMWInst::UMin: nv = VE(mkUMin(toE(old, w), toE(v, w))); break; default: unsup("atomicrmw"); }
    storeN(s, a, n, nv, true); acquire(s, a.c); release(s, a.c); s.fr().regs[ki.dest] = old; break; }
  case Instruction::AtomicCmpXchg: { auto* x = cast<AtomicCmpXchgInst>(I); Val a = R(0), c = R(1), nv = R(2); Type* t = x->getCompareOperand()->getType(); int w = wOf(t); if (s.th.size() > 1 && !refCount(I)) schedulePoint(s); Val old = loadTy(s, a, t, true); E eq = mkEq(toE(old, w), toE(c, w)); bool d = branch(s, eq); if (d) storeTy(s, a, t, nv, true); acquire(s, a.c); if (d) release(s, a.c); s.fr().regs[ki.dest] = VA({old, VC(d)}); break; }
  case Instruction::Fence: break;
  case Instruction::VAArg: unsup("va_arg");
  default:
    if (ki.op == Instruction::Mul && ki.w >= 32 && ki.w <= 64) { Val a = R(0), b = R(1); if (!a.agg && !a.conc() && !b.conc()) { a = narrow(s, a); b = narrow(s, b); } f.regs[ki.dest] = binOp(ki.op, a, b, ki.w); break; }
    if (I->isBinaryOp()) { f.regs[ki.dest] = binOp(ki.op, R(0), R(1), ki.w); break; }
    if (I->isCast()) { f.regs[ki.dest] = castOp(ki.op, R(0), I->getOperand(0)->getType(), I->getType()); break; }
    unsup(string("instruction ") + I->getOpcodeName());
  }
  ++s.fr().ip;
}

static volatile sig_atomic_t gStop = 0; static vector<vector<pair<string, string>>> samples; // inputs of some completed paths
static void runState(State* s) {
  try {
    newEvalEpoch();
    while (true) {
      try { step(*s); } catch (Retry&) { continue; }
      if ((s->steps & 0x3fff) == 0) { if (elapsed() > maxTime || gStop) throw Kill{"time-limit", true}; if (s->steps > maxSteps) { reportError(*s, "nontermination", "more than " + to_string(maxSteps) + " instructions on one path", s->model); ++pathsErr; throw Kill{"error:step-limit", false}; } }
    }
  } catch (Kill& k) {
    if (k.why == "done") { ++pathsDone; if ((pathsDone & (pathsDone - 1)) == 0 && samples.size() < 14 && !s->log.empty()) { vector<pair<string, string>> v; newEvalEpoch(); for (auto& l : s->log) { u128 x = l.v.e ? evalExpr(l.v.e, s->model) : (u128)l.v.c; v.push_back({l.name, to_string(l.w) + " " + hexv(x)}); } samples.push_back(v); newEvalEpoch(); } } else if (k.inc) { ++incomplete[k.why]; if (verbose) { std::cerr << "INCOMPLETE " << k.why << "\n"; for (auto& t : stackTrace(*s)) std::cerr << "    " << t << "\n"; } } else ++pathsKilled;
  }
  delete s;
}
static string jstr(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
  string bc, entry, out; 
  for (int i = 1; i < argc; ++i) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-time") maxTime = stod(nx()); else if (a == "--max-steps") maxSteps = stoull(nx()); else if (a == "--max-paths") maxPaths = stoull(nx()); else if (a == "--shard") { string x = nx(); size_t p = x.find('/'); shardI = stoull(x.substr(0, p)); shardN = stoull(x.substr(p + 1)); } else if (a == "--alloc-cap") ALLOC_CAP = stoull(nx()); else if (a == "--alloc-max") ALLOC_MAX = stoull(nx()); else if (a == "--max-switches") maxSwitches = stoi(nx()); else if (a == "--max-errors") maxErrors = stoull(nx()); else if (a == "-v") verbose = true; else if (a == "--query-timeout") { qTimeout = stoul(nx()); } else if (a == "--fp-timeout") { fpT = stoul(nx()); } else bc = a; }
  signal(SIGTERM, [](int) { gStop = 1; });
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1ull << 30; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); solverInit(qTimeout, fpT);
  State* s = new State; s->id = 0; s->t().vc = {1};
  u64 fa = FUNCBASE; for (auto& F : *M) { funcAddr[&F] = fa; funcByAddr[fa] = &F; fa += 16; }
  for (auto& G : M->globals()) { Type* t = G.getValueType(); u64 n = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8; if (n == 0) n = 1; bool ext = !G.hasInitializer(); u64 a = allocObj(*s, n + (ext ? 64 : 0), nullptr, ext ? MK::Ext : MK::Global, G.getName().str(), false, false); globAddr[&G] = a; globByAddr[a] = &G; }
  for (auto& G : M->globals()) if (G.hasInitializer()) initMem(*s, globAddr[&G], G.getInitializer());
  for (auto& G : M->globals()) if (G.hasInitializer() && G.isConstant()) { Ref r; lookup(*s, globAddr[&G], r); r.mo->ro = true; }
  initBuiltins();
  Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
  // constructors
  vector<pair<u64, Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : arr->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  try { for (auto& c : ctors) { s->steps = 0; pushCall(*s, c.second, {}, true, nullptr); try { while (true) { try { step(*s); } catch (Retry&) {} if (s->steps > 2000000) { for (auto& t : stackTrace(*s)) std::cerr << "    " << t << "\n"; throw Kill{"global constructor does not end", true}; } } } catch (Kill& k) { if (k.why != "done") { std::cerr << "global constructor failed: " << k.why << "\n"; ++incomplete["global-ctor:" + k.why]; } s->th[0].done = false; s->th[0].stack.clear(); } } } catch (Kill& k) { std::cerr << "ctor: " << k.why << "\n"; }
  s->steps = 0; pushCall(*s, ef, {}, true, nullptr); pending.push_back(s); bool cut = false;
  while (!pending.empty()) {
    if (elapsed() > maxTime || pathsDone + pathsKilled >= maxPaths || gStop) { cut = true; ++incomplete[gStop ? "stopped" : elapsed() > maxTime ? "time-limit" : "path-limit"]; break; }
    if (errors.size() >= maxErrors) { cut = true; ++incomplete["error-limit"]; break; }
    State* x = pending.back(); pending.pop_back(); runState(x);
    if (verbose && ((pathsDone + pathsKilled) % 500) == 0) fprintf(stderr, "[%.1fs] done=%llu killed=%llu pending=%zu queries=%llu solver=%.1fs exprs=%zu\n", elapsed(), (unsigned long long)pathsDone, (unsigned long long)pathsKilled, pending.size(), (unsigned long long)gSolver.queries, gSolver.time, exprCount());
  }
  std::ostringstream js; js << "{\"entry\":" << jstr(entry) << ",\"complete\":" << (incomplete.empty() && !cut ? "true" : "false") << ",\"paths\":" << pathsDone << ",\"paths_pruned\":" << pathsKilled << ",\"pending\":" << pending.size() << ",\"forks\":" << totalForks << ",\"steps\":" << totalSteps << ",\"asserts\":" << nAsserts << ",\"queries\":" << gSolver.queries << ",\"cache_hits\":" << gSolver.cacheHits << ",\"sat\":" << gSolver.sat << ",\"unsat\":" << gSolver.unsat << ",\"unknown\":" << gSolver.unknown << ",\"fp_queries\":" << gSolver.fpQueries << ",\"solver_s\":" << gSolver.time << ",\"max_query_s\":" << gSolver.maxTime << ",\"wall_s\":" << elapsed() << ",\"exprs\":" << exprCount();
  js << ",\"incomplete\":{"; bool c1 = false; for (auto& p : incomplete) { js << (c1 ? "," : "") << jstr(p.first) << ":" << p.second; c1 = true; } js << "},\"reached\":{"; c1 = false; for (auto& p : reached) { js << (c1 ? "," : "") << jstr(p.first) << ":" << p.second; c1 = true; }
  js << "},\"errors\":["; c1 = false; for (auto& e : errors) { js << (c1 ? "," : "") << "{\"kind\":" << jstr(e.kind) << ",\"msg\":" << jstr(e.msg) << ",\"loc\":" << jstr(e.loc) << ",\"trace\":["; bool c2 = false; for (auto& t : e.trace) { js << (c2 ? "," : "") << jstr(t); c2 = true; } js << "],\"vals\":["; c2 = false; for (auto& v : e.vals) { js << (c2 ? "," : "") << "[" << jstr(v.first) << "," << jstr(v.second) << "]"; c2 = true; } js << "]}"; c1 = true; }
  js << "],\"samples\":["; c1 = false; for (auto& sm : samples) { js << (c1 ? ",[" : "["); bool c2 = false; for (auto& v : sm) { js << (c2 ? "," : "") << "[" << jstr(v.first) << "," << jstr(v.second) << "]"; c2 = true; } js << "]"; c1 = true; }
  js << "],\"functions\":["; c1 = false; for (auto& p : kfuncs) if (p.second && p.second->calls) { Function* F = p.second->F; string file; if (auto* sp = F->getSubprogram()) file = sp->getFilename().str(); size_t cov = 0; for (auto x : p.second->covered) cov += x; js << (c1 ? "," : "") << "[" << jstr(llvm::demangle(F->getName().str())) << "," << jstr(file) << "," << p.second->calls << "," << cov << "," << p.second->insts.size() << "]"; c1 = true; } js << "]}\n";
  if (profForks) printForks();
  if (!out.empty()) { std::ofstream o(out); o << js.str(); } 
  fprintf(stderr, "%s: complete=%d paths=%llu pruned=%llu errors=%zu queries=%llu (cache %llu, unk %llu) solver=%.2fs wall=%.2fs\n", entry.c_str(), (int)(incomplete.empty() && !cut), (unsigned long long)pathsDone, (unsigned long long)pathsKilled, errors.size(), (unsigned long long)gSolver.queries, (unsigned long long)gSolver.cacheHits, (unsigned long long)gSolver.unknown, gSolver.time, elapsed());
  for (auto& p : incomplete) fprintf(stderr, "  incomplete: %s x%llu\n", p.first.c_str(), (unsigned long long)p.second);
  for (auto& e : errors) fprintf(stderr, "  error: %s: %s at %s\n", e.kind.c_str(), e.msg.c_str(), e.loc.c_str());
  fflush(stderr); _exit(0);
}
