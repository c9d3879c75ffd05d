// Built-in functions of the symbolic machine (included by exec.cpp)
static unsigned long qTimeout = 15000, fpT = 30000;
typedef std::function<void(State&, KInst&, vector<Val>&)> Handler;
static std::unordered_map<string, Handler> builtins; static std::unordered_map<const Function*, const Handler*> handlerOf;
static void retV(State& s, const Val& v) { finishCall(s, &v); }
static void retVoid(State& s) { finishCall(s, nullptr); }
static string cstr(State& s, const Val& p) { string r; if (!p.conc()) return "?"; for (int i = 0; i < 300; ++i) { Ref rf; if (!lookup(s, p.c + i, rf)) break; u64 o = p.c + i - rf.mo->base; if (o >= rf.mo->cap) break; if (symByte(rf.os, o)) { r += '?'; continue; } char c = rf.os->b[o]; if (!c) break; r += c; } return r; }
static const char* internStr(const string& s) { static set<string> pool; return pool.insert(s).first->c_str(); }

// allocation; returns false when the allocation fails
static bool allocV(State& s, const Val& n, MK kind, const char* name, bool undef, u64& p) {
  if (n.conc()) { if (n.c > ALLOC_CAP) return false; p = allocObj(s, n.c, nullptr, kind, name, undef); return true; }
  E ok = mkUle(n.e, mkConst(ALLOC_CAP, 64)); if (!branch(s, ok)) return false;
  u64 lo, hi, st; offRange(s, n.e, ALLOC_CAP + 1, 1, lo, hi, st); if (lo == hi) { p = allocObj(s, lo, nullptr, kind, name, undef); return true; }
  p = allocObj(s, hi, n.e, kind, name, undef); return true;
}
static void doFree(State& s, const Val& pv, int how /*0 free 1 delete 2 delete[]*/) {
  u64 p = concretize(s, pv, 64); if (!p) return; Ref r; if (!lookup(s, p, r)) fatalErr(s, "memory", "double free or free of an invalid pointer");
  if (p != r.mo->base) fatalErr(s, "memory", "free of a pointer into the middle of " + objName(r.mo));
  if ((how == 0 && r.mo->kind != MK::Heap) || (how == 1 && r.mo->kind != MK::New) || (how == 2 && r.mo->kind != MK::NewArr)) fatalErr(s, "memory", "allocation/deallocation mismatch or free of a non-heap object: " + objName(r.mo));
  if (s.th.size() > 1) { for (u64 i = 0; i < r.mo->cap; ++i) { auto it = s.shadow.find(r.mo->base + i); if (it == s.shadow.end()) continue; } raceCheck(s, r, VC(0), r.mo->cap, true, false); }
  freeObj(s, r);
}
static void throwBadAlloc(State& s) { Function* F = M->getFunction("sym_rt_throw_bad_alloc"); if (!F) unsup("bad_alloc"); pushCall(s, F, {}, true, nullptr); }
// region for a symbolic length operation: establishes provenance and [p, p+n) in bounds (when n > 0)
static void region(State& s, const Val& p, const Val& n, bool write, Ref& r, Val& off, const char* what) {
  if (n.conc()) { resolve(s, p, n.c, write, r, off, what); return; }
  if (!p.conc() && !constPart(s, p.e, r)) { region(s, VC(concretize(s, p, 64)), n, write, r, off, what); return; }
  if (p.conc()) { if (p.c < 4096 || !lookup(s, p.c, r)) { E z = mkEq(n.e, mkConst(0, 64)); checkE(s, z, "memory", string(p.c < 4096 ? "null pointer " : "invalid pointer ") + what); r.mo = nullptr; return; } off = VC(p.c - r.mo->base); } else off = VE(mkSub(p.e, mkConst(r.mo->base, 64)));
  E o = toE(off, 64), sz = sizeExpr(r.mo); E ok = mkAnd(mkUle(n.e, sz), mkUle(o, mkSub(sz, n.e))); ++nBoundsQueries;
  checkE(s, mkOr(mkEq(n.e, mkConst(0, 64)), ok), "memory", string("out-of-bounds ") + what + " (variable length) of " + objName(r.mo));
  if (write && r.mo->ro) fatalErr(s, "memory", "write to constant " + objName(r.mo)); Entry en = tab(s, r.stk).get(r.id); r.os = en.os;
}
static Val addOff(const Val& o, u64 i) { return addV(o, i); }
static void memCopy(State& s, const Val& d, const Val& sr, const Val& n, bool move) {
  if (n.conc() && n.c == 0) return; Ref rs, rd; Val os, od; region(s, sr, n, false, rs, os, "read (memcpy)"); region(s, d, n, true, rd, od, "write (memcpy)");
  if (!rs.mo || !rd.mo) return; u64 len = n.c; E nE = nullptr;
  if (!n.conc()) { u64 lo, hi, st; offRange(s, n.e, std::min(rs.mo->cap, rd.mo->cap) + 1, 1, lo, hi, st); if (lo == hi) len = lo; else if (hi > 20000) { concretize(s, n, 64); throw Retry{}; } else { len = hi; nE = n.e; } 
    if (len == 0) return; }
  if (!os.conc() || !od.conc()) { if (len > 512 || nE) { if (!os.conc()) concretize(s, os, 64); else concretize(s, od, 64); 
      // make the offset concrete in this state by substituting its value
      if (!os.conc()) os = VC((u64)evalIn(s, os.e)); if (!od.conc()) { u64 v = concretize(s, od, 64); od = VC(v); } } 
    else { vector<Val> t; for (u64 i = 0; i < len; ++i) t.push_back(loadAt(s, rs, addOff(os, i), 1)); rd.os = tab(s, rd.stk).get(rd.id).os; for (u64 i = 0; i < len; ++i) storeAt(s, rd, addOff(od, i), 1, t[i]); return; } }
  raceCheck(s, rs, os, len, false, false); raceCheck(s, rd, od, len, true, false);
  if (os.c + len > rs.mo->cap) { if (!nE) fatalErr(s, "memory", "memcpy source"); len = rs.mo->cap - os.c; } if (od.c + len > rd.mo->cap) len = rd.mo->cap - od.c;
  if (!move && !nE && rs.mo == rd.mo && os.c != od.c) { u64 a = os.c, b = od.c; if ((a < b ? b - a : a - b) < len) fatalErr(s, "memory", "memcpy with overlapping regions"); }
  ObjState* so = tab(s, rs.stk).get(rs.id).os; vector<u8> tb(so->b.begin() + os.c, so->b.begin() + os.c + len); vector<E> te; if (so->sym) te.assign(so->sym + os.c, so->sym + os.c + len);
  ObjState* o = tab(s, rd.stk).wr(rd.id); bool any = nE != nullptr; for (E e : te) if (e) any = true; if (any) o->needSym();
  if (!nE) { memcpy(&o->b[od.c], tb.data(), len); if (o->sym) { if (te.empty()) memset((void*)(o->sym + od.c), 0, len * sizeof(E)); else memcpy((void*)(o->sym + od.c), te.data(), len * sizeof(E)); } return; }
  u64 lo = n.e->lo; for (u64 i = 0; i < len; ++i) { E c = mkUlt(mkConst(i, 64), nE); E x = te.empty() ? nullptr : te[i]; if (x == UNDEF) x = mkNamedVar("undef#" + to_string(s.nUndef++), 8); if (!x) x = mkConst(tb[i], 8); E old = o->sym[od.c + i]; if (old == UNDEF) old = mkNamedVar("undef#" + to_string(s.nUndef++), 8); if (!old) old = mkConst(o->b[od.c + i], 8); E nw = mkIte(c, x, old); if (nw->isConst()) { o->b[od.c + i] = (u8)nw->val; o->sym[od.c + i] = nullptr; } else o->sym[od.c + i] = nw; }
}
static void memSet(State& s, const Val& d, const Val& v, const Val& n) {
  if (n.conc() && n.c == 0) return; Ref rd; Val od; region(s, d, n, true, rd, od, "write (memset)"); if (!rd.mo) return; u64 len = n.c; E nE = nullptr;
  if (!n.conc()) { u64 lo, hi, st; offRange(s, n.e, rd.mo->cap + 1, 1, lo, hi, st); if (lo == hi) len = lo; else if (hi > 20000) { concretize(s, n, 64); throw Retry{}; } else { len = hi; nE = n.e; } }
  if (!od.conc()) { if (len > 64 || nE) { u64 x = concretize(s, od, 64); od = VC(x); } else { for (u64 i = 0; i < len; ++i) storeAt(s, rd, addOff(od, i), 1, v); return; } }
  raceCheck(s, rd, od, len, true, false); if (od.c + len > rd.mo->cap) len = rd.mo->cap - od.c;
  ObjState* o = tab(s, rd.stk).wr(rd.id); if (nE || !v.conc()) o->needSym(); E ve = toE(v, 8);
  for (u64 i = 0; i < len; ++i) { if (!nE && v.conc()) { o->b[od.c + i] = (u8)v.c; if (o->sym) o->sym[od.c + i] = nullptr; continue; }
    E x = ve; if (nE) { E old = o->sym[od.c + i]; if (old == UNDEF) old = mkNamedVar("undef#" + to_string(s.nUndef++), 8); if (!old) old = mkConst(o->b[od.c + i], 8); x = mkIte(mkUlt(mkConst(i, 64), nE), ve, old); }
    if (x->isConst()) { o->b[od.c + i] = (u8)x->val; o->sym[od.c + i] = nullptr; } else o->sym[od.c + i] = x; }
}
static Val memCmp(State& s, const Val& a, const Val& b, const Val& nv, bool eqOnly) {
  u64 n = concretize(s, nv, 64); if (n == 0) return VC(0); Ref ra, rb; Val oa, ob; resolve(s, a, n, false, ra, oa, "read (memcmp)"); resolve(s, b, n, false, rb, ob, "read (memcmp)"); raceCheck(s, ra, oa, n, false, false); raceCheck(s, rb, ob, n, false, false); 
  E r = mkConst(0, 32); E ne = mkBool(0);
  for (u64 i = n; i-- > 0;) { rb.os = tab(s, rb.stk).get(rb.id).os; ra.os = tab(s, ra.stk).get(ra.id).os; E x = toE(loadAt(s, ra, addOff(oa, i), 1), 8), y = toE(loadAt(s, rb, addOff(ob, i), 1), 8); E eq = mkEq(x, y); if (eqOnly) ne = mkOr(ne, mkNot(eq)); else r = mkIte(eq, r, mkSub(mkZExt(x, 32), mkZExt(y, 32))); }
  if (eqOnly) return VE(mkZExt(ne, 32)); return VE(r);
}
static Val symVar(State& s, const string& name, int w) {
  E e = mkNamedVar(name + "#" + to_string(s.nsym++), w); u32 idx = (u32)e->val; (void)idx; s.log.push_back({internStr(name), w, VE(e)}); return VE(e);
}
static void startThrow(State& s, u64 exc) { unwind(s, exc); }

static Val mapF(const Val& a, Type* t, std::function<E(E, int)> f) { if (a.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(mapF((*a.agg)[i], elemTy(t, i), f)); return VA(r); } int w = wOf(t); return VE(f(toE(a, w), w)); }
static Val mapF2(const Val& a, const Val& b, Type* t, std::function<E(E, E)> f) { if (a.agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(mapF2((*a.agg)[i], (*b.agg)[i], elemTy(t, i), f)); return VA(r); } int w = wOf(t); return VE(f(toE(a, w), toE(b, w))); }

static bool intrinsic(State& s, KInst& ki, Function* F, vector<Val>& a) {
  auto id = F->getIntrinsicID(); Type* t = ki.I->getType(); 
  auto ov = [&](K k, bool sgn) { int w = wOf(cast<StructType>(t)->getElementType(0)); E x = toE(a[0], w), y = toE(a[1], w); E r = mkBin(k, x, y); int W = k == K::Mul ? 2 * w : w + 1; E o;
    if (W <= 128) { E wx = sgn ? mkSExt(x, W) : mkZExt(x, W), wy = sgn ? mkSExt(y, W) : mkZExt(y, W); E wr = mkBin(k, wx, wy); o = mkNot(mkEq(wr, sgn ? mkSExt(r, W) : mkZExt(r, W))); 
      if (!sgn && k == K::Sub) o = mkUlt(x, y); if (!sgn && k == K::Add) o = mkUlt(r, x); } else { unsup("wide overflow op"); }
    retV(s, VA({VE(r), VE(o)})); };
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_end: case Intrinsic::sideeffect: retVoid(s); return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: retV(s, VC(0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memCopy(s, a[0], a[1], a[2].conc() ? a[2] : VE(mkZExt(a[2].e, 64)), false); retVoid(s); return true;
  case Intrinsic::memmove: memCopy(s, a[0], a[1], a[2].conc() ? a[2] : VE(mkZExt(a[2].e, 64)), true); retVoid(s); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: memSet(s, a[0], a[1], a[2].conc() ? a[2] : VE(mkZExt(a[2].e, 64))); retVoid(s); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence: retV(s, a[0]); return true;
  case Intrinsic::is_constant: retV(s, VC(0)); return true;
  case Intrinsic::objectsize: retV(s, a[1].c ? VC(0) : VC(~0ull)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: fatalErr(s, "trap", "llvm.trap");
  case Intrinsic::eh_typeid_for: retV(s, VC(typeId(a[0].c))); return true;
  case Intrinsic::uadd_with_overflow: ov(K::Add, false); return true; case Intrinsic::usub_with_overflow: ov(K::Sub, false); return true; case Intrinsic::umul_with_overflow: ov(K::Mul, false); return true;
  case Intrinsic::sadd_with_overflow: ov(K::Add, true); return true; case Intrinsic::ssub_with_overflow: ov(K::Sub, true); return true; case Intrinsic::smul_with_overflow: ov(K::Mul, true); return true;
  case Intrinsic::umax: retV(s, mapF2(a[0], a[1], t, mkUMax)); return true; case Intrinsic::umin: retV(s, mapF2(a[0], a[1], t, mkUMin)); return true; case Intrinsic::smax: retV(s, mapF2(a[0], a[1], t, mkSMax)); return true; case Intrinsic::smin: retV(s, mapF2(a[0], a[1], t, mkSMin)); return true;
  case Intrinsic::abs: retV(s, mapF(a[0], t, [](E e, int) { return mkAbs(e); })); return true; case Intrinsic::ctpop: retV(s, mapF(a[0], t, [](E e, int) { return mkCtPop(e); })); return true; case Intrinsic::ctlz: retV(s, mapF(a[0], t, [](E e, int) { return mkCtlz(e); })); return true; case Intrinsic::cttz: retV(s, mapF(a[0], t, [](E e, int) { return mkCttz(e); })); return true;
  case Intrinsic::bswap: retV(s, mapF(a[0], t, [](E e, int) { return mkBswap(e); })); return true; case Intrinsic::bitreverse: retV(s, mapF(a[0], t, [](E e, int) { return mkBitReverse(e); })); return true;
  case Intrinsic::fshl: { int w = wOf(t); if (a[0].agg) unsup("vector fshl"); retV(s, VE(mkFshl(toE(a[0], w), toE(a[1], w), toE(a[2], w)))); return true; } case Intrinsic::fshr: { int w = wOf(t); if (a[0].agg) unsup("vector fshr"); retV(s, VE(mkFshr(toE(a[0], w), toE(a[1], w), toE(a[2], w)))); return true; }
  case Intrinsic::uadd_sat: retV(s, mapF2(a[0], a[1], t, mkUAddSat)); return true; case Intrinsic::usub_sat: retV(s, mapF2(a[0], a[1], t, mkUSubSat)); return true; case Intrinsic::sadd_sat: retV(s, mapF2(a[0], a[1], t, mkSAddSat)); return true; case Intrinsic::ssub_sat: retV(s, mapF2(a[0], a[1], t, mkSSubSat)); return true;
  case Intrinsic::fabs: retV(s, mapF(a[0], t, [](E e, int) { return mkFAbs(e); })); return true; case Intrinsic::floor: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FRound, e, w, 2); })); return true; case Intrinsic::ceil: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FRound, e, w, 3); })); return true; case Intrinsic::trunc: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FRound, e, w, 4); })); return true; case Intrinsic::round: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FRound, e, w, 1); })); return true; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FRound, e, w, 0); })); return true;
  case Intrinsic::sqrt: retV(s, mapF(a[0], t, [](E e, int w) { return mkFP1(K::FSqrt, e, w); })); return true; case Intrinsic::copysign: retV(s, mapF2(a[0], a[1], t, mkCopySign)); return true; case Intrinsic::minnum: case Intrinsic::minimum: retV(s, mapF2(a[0], a[1], t, mkFPMin)); return true; case Intrinsic::maxnum: case Intrinsic::maximum: retV(s, mapF2(a[0], a[1], t, mkFPMax)); return true;
  case Intrinsic::fmuladd: { if (a[0].agg) unsup("vector fmuladd"); int w = wOf(t); retV(s, VE(mkFP2(K::FAdd, mkFP2(K::FMul, toE(a[0], w), toE(a[1], w), w), toE(a[2], w), w))); return true; } case Intrinsic::fma: { int w = wOf(t); retV(s, VE(mkFP3(K::FMA, toE(a[0], w), toE(a[1], w), toE(a[2], w), w))); return true; }
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: unsup("fpto*_sat");
  case Intrinsic::is_fpclass: { int w = wOf(cast<CallBase>(ki.I)->getArgOperand(0)->getType()); u64 m = a[1].c; E e = toE(a[0], w); E ab = mkFAbs(e); u64 inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull; E r = mkBool(0); E neg = mkExtract(e, w - 1, 1); E I = mkConst(inf, w);
    if (m & 3) r = mkOr(r, mkUlt(I, ab)); E isInf = mkEq(ab, I); if (m & 4) r = mkOr(r, mkAnd(isInf, neg)); if (m & 512) r = mkOr(r, mkAnd(isInf, mkNot(neg))); E z = mkEq(ab, mkConst(0, w)); if (m & 32) r = mkOr(r, mkAnd(z, neg)); if (m & 64) r = mkOr(r, mkAnd(z, mkNot(neg))); u64 mn = w == 64 ? 1ull << 52 : 1u << 23; E norm = mkAnd(mkUlt(ab, I), mkUle(mkConst(mn, w), ab)), sub = mkAnd(mkUlt(ab, mkConst(mn, w)), mkNot(z)); if (m & 8) r = mkOr(r, mkAnd(norm, neg)); if (m & 256) r = mkOr(r, mkAnd(norm, mkNot(neg))); if (m & 16) r = mkOr(r, mkAnd(sub, neg)); if (m & 128) r = mkOr(r, mkAnd(sub, mkNot(neg))); retV(s, VE(r)); return true; }
  case Intrinsic::ptrmask: retV(s, binOp(Instruction::And, a[0], a[1], 64)); return true;
  case Intrinsic::vastart: { Frame& f = s.fr(); u64 n = std::max<size_t>(1, f.varargs.size()) * 8; vector<Val> va = f.varargs; u64 p = allocObj(s, n, nullptr, MK::Stack, "varargs", true); s.fr().allocas.push_back((p - STKBASE) >> 20); for (size_t i = 0; i < va.size(); ++i) storeN(s, VC(p + 8 * i), 8, va[i]); storeN(s, a[0], 4, VC(48)); storeN(s, addV(a[0], 4), 4, VC(176)); storeN(s, addV(a[0], 8), 8, VC(p)); storeN(s, addV(a[0], 16), 8, VC(0)); retVoid(s); return true; }
  case Intrinsic::vacopy: memCopy(s, a[0], a[1], VC(24), false); retVoid(s); return true;
  case Intrinsic::vector_reduce_add: { E e = nullptr; int w = wOf(t); for (auto& x : *a[0].agg) e = e ? mkAdd(e, toE(x, w)) : toE(x, w); retV(s, VE(e)); return true; } case Intrinsic::vector_reduce_or: { E e = nullptr; int w = wOf(t); for (auto& x : *a[0].agg) e = e ? mkOr(e, toE(x, w)) : toE(x, w); retV(s, VE(e)); return true; } case Intrinsic::vector_reduce_and: { E e = nullptr; int w = wOf(t); for (auto& x : *a[0].agg) e = e ? mkAnd(e, toE(x, w)) : toE(x, w); retV(s, VE(e)); return true; }
  case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: { int w = wOf(t); for (auto& x : a) if (!x.conc()) unsup("symbolic transcendental function"); auto g = [&](u64 b) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float f; u32 q = (u32)b; memcpy(&f, &q, 4); return (double)f; }; double x = g(a[0].c), r = 0; switch (id) { case Intrinsic::pow: r = pow(x, g(a[1].c)); break; case Intrinsic::exp: r = exp(x); break; case Intrinsic::exp2: r = exp2(x); break; case Intrinsic::log: r = log(x); break; case Intrinsic::log2: r = log2(x); break; case Intrinsic::log10: r = log10(x); break; case Intrinsic::sin: r = sin(x); break; default: r = cos(x); } retV(s, VC(fpConstBits(r, w))); return true; }
  case Intrinsic::lround: case Intrinsic::llround: { int fw = wOf(cast<CallBase>(ki.I)->getArgOperand(0)->getType()); E e = toE(a[0], fw); retV(s, VE(mkFP1(K::FPToSI, mkFP1(K::FRound, e, fw, 1), 64))); return true; }
  default: unsup("intrinsic " + F->getName().str());
  }
}
static void mutexLock(State& s, u64 m) {
  schedulePoint(s); int& o = s.mutexOwner[m];
  if (o) { if (o == s.cur + 1 && s.th.size() == 1) fatalErr(s, "deadlock", "mutex locked twice by the same thread"); s.t().waitMutex = m; blockAndSwitch(s); }
  o = s.cur + 1; s.t().waitMutex = 0; acquire(s, m);
}
static void mutexUnlock(State& s, u64 m) { int& o = s.mutexOwner[m]; if (o != s.cur + 1) fatalErr(s, "mutex", "unlock of a mutex not held by this thread"); o = 0; release(s, m); }
static void mathFn(const char* name, int w, std::function<double(double, double)> f, int nargs) { builtins[name] = [=](State& s, KInst&, vector<Val>& a) { for (int i = 0; i < nargs; ++i) if (!a[i].conc()) unsup(string("symbolic argument of ") + name); auto g = [&](u64 b) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float q; u32 z = (u32)b; memcpy(&q, &z, 4); return (double)q; }; retV(s, VC(fpConstBits(f(g(a[0].c), nargs > 1 ? g(a[1].c) : 0), w))); }; }

static void initBuiltins() {
  auto& B = builtins;
  auto mal = [](MK k, const char* nm) { return [=](State& s, KInst&, vector<Val>& a) { u64 p; if (allocV(s, a[0], k, nm, true, p)) retV(s, VC(p)); else if (k == MK::Heap) retV(s, VC(0)); else throwBadAlloc(s); }; };
  B["malloc"] = mal(MK::Heap, "malloc"); B["_Znwm"] = mal(MK::New, "new"); B["_Znam"] = mal(MK::NewArr, "new[]"); B["_ZnwmSt11align_val_t"] = mal(MK::New, "new"); B["_ZnamSt11align_val_t"] = mal(MK::NewArr, "new[]");
  auto maln = [](MK k, const char* nm) { return [=](State& s, KInst&, vector<Val>& a) { u64 p; if (allocV(s, a[0], k, nm, true, p)) retV(s, VC(p)); else retV(s, VC(0)); }; };
  B["_ZnwmRKSt9nothrow_t"] = maln(MK::New, "new"); B["_ZnamRKSt9nothrow_t"] = maln(MK::NewArr, "new[]");
  B["aligned_alloc"] = [](State& s, KInst&, vector<Val>& a) { u64 p; if (allocV(s, a[1], MK::Heap, "aligned_alloc", true, p)) retV(s, VC(p)); else retV(s, VC(0)); };
  B["calloc"] = [](State& s, KInst&, vector<Val>& a) { u64 p; Val n = binOp(Instruction::Mul, a[0], a[1], 64); if (allocV(s, n, MK::Heap, "calloc", false, p)) retV(s, VC(p)); else retV(s, VC(0)); };
  B["realloc"] = [](State& s, KInst&, vector<Val>& a) { u64 old = concretize(s, a[0], 64); u64 p; if (!allocV(s, a[1], MK::Heap, "realloc", true, p)) { retV(s, VC(0)); return; } if (old) { Ref r, d; if (!lookup(s, old, r)) fatalErr(s, "memory", "realloc of invalid pointer"); if (r.mo->sizeE || !a[1].conc()) unsup("symbolic realloc"); lookup(s, p, d); u64 n = std::min(r.mo->cap, d.mo->cap); if (n) memCopy(s, VC(p), VC(old), VC(n), false); doFree(s, VC(old), 0); } retV(s, VC(p)); };
  B["free"] = [](State& s, KInst&, vector<Val>& a) { doFree(s, a[0], 0); retVoid(s); };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B[n] = [](State& s, KInst&, vector<Val>& a) { doFree(s, a[0], 1); retVoid(s); };
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) B[n] = [](State& s, KInst&, vector<Val>& a) { doFree(s, a[0], 2); retVoid(s); };
  B["memcpy"] = [](State& s, KInst&, vector<Val>& a) { memCopy(s, a[0], a[1], a[2], false); retV(s, a[0]); }; B["memmove"] = [](State& s, KInst&, vector<Val>& a) { memCopy(s, a[0], a[1], a[2], true); retV(s, a[0]); };
  B["memset"] = [](State& s, KInst&, vector<Val>& a) { memSet(s, a[0], a[1].conc() ? VC(a[1].c & 255) : VE(mkExtract(a[1].e, 0, 8)), a[2]); retV(s, a[0]); };
  B["memcmp"] = [](State& s, KInst&, vector<Val>& a) { retV(s, memCmp(s, a[0], a[1], a[2], false)); }; B["bcmp"] = [](State& s, KInst&, vector<Val>& a) { retV(s, memCmp(s, a[0], a[1], a[2], true)); };
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "_exit", "__stack_chk_fail"}) { string nm = n; B[n] = [nm](State& s, KInst&, vector<Val>& a) { fatalErr(s, "abort", "call of " + llvm::demangle(nm)); }; }
  B["__assert_fail"] = [](State& s, KInst&, vector<Val>& a) { fatalErr(s, "abort", "assertion failed: " + cstr(s, a[0])); };
  // exceptions
  B["__cxa_allocate_exception"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(allocObj(s, a[0].c, nullptr, MK::Heap, "exception", true))); };
  B["__cxa_free_exception"] = [](State& s, KInst&, vector<Val>& a) { doFree(s, a[0], 0); retVoid(s); };
  B["__cxa_throw"] = [](State& s, KInst&, vector<Val>& a) { s.exc[a[0].c] = ExcInfo{a[1].c, a[2].c, a[0].c, 0, false}; startThrow(s, a[0].c); };
  B["__cxa_rethrow"] = [](State& s, KInst&, vector<Val>& a) { if (s.t().caught.empty()) fatalErr(s, "terminate", "rethrow without a caught exception"); u64 o = s.t().caught.back().obj; s.exc[o].rethrown = true; startThrow(s, o); };
  B["__cxa_begin_catch"] = [](State& s, KInst&, vector<Val>& a) { u64 o = a[0].c; auto& c = s.t().caught; ExcInfo& ei = s.exc[o]; ++ei.refs; ei.rethrown = false; c.push_back({o, ei.adj, 0}); retV(s, VC(ei.adj)); };
  B["__cxa_get_exception_ptr"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(s.exc[a[0].c].adj)); };
  B["__cxa_end_catch"] = [](State& s, KInst&, vector<Val>& a) { auto& c = s.t().caught; if (c.empty()) unsup("end_catch"); u64 o = c.back().obj; c.pop_back(); ExcInfo ei = s.exc[o]; int left = --s.exc[o].refs; if (left == 0 && !ei.rethrown) { s.exc.erase(o); Function* d = ei.dtor ? funcByAddr[ei.dtor] : nullptr; if (d && !d->isDeclaration()) { pushCall(s, d, {VC(o)}, true, nullptr); return; } } retVoid(s); };
  B["_ZSt18uncaught_exceptionv"] = B["_ZSt19uncaught_exceptionsv"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(0)); };
  // exception_ptr support (reference counts are not modelled: objects simply stay alive)
  B["_ZSt17current_exceptionv"] = [](State& s, KInst&, vector<Val>& a) { u64 o = 0; if (!s.t().caught.empty()) { o = s.t().caught.back().obj; s.exc[o].refs += 1000; } storeN(s, a[0], 8, VC(o)); retVoid(s); };
  B["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = [](State& s, KInst&, vector<Val>& a) { Val v = loadN(s, a[0], 8); startThrow(s, v.c); };
  for (const char* n : {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}) B[n] = [](State& s, KInst&, vector<Val>& a) { storeN(s, a[0], 8, loadN(s, a[1], 8)); retVoid(s); };
  for (const char* n : {"_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}) B[n] = [](State& s, KInst&, vector<Val>& a) { retVoid(s); };
  B["__cxa_guard_acquire"] = [](State& s, KInst&, vector<Val>& a) { Val v = loadN(s, a[0], 1, true); acquire(s, a[0].c); retV(s, VC(v.c ? 0 : 1)); }; B["__cxa_guard_release"] = [](State& s, KInst&, vector<Val>& a) { storeN(s, a[0], 1, VC(1), true); release(s, a[0].c); retVoid(s); }; B["__cxa_guard_abort"] = [](State& s, KInst&, vector<Val>& a) { retVoid(s); };
  B["__cxa_atexit"] = B["atexit"] = B["__cxa_thread_atexit"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(0)); };
  B["__dynamic_cast"] = [](State& s, KInst&, vector<Val>& a) { u64 p = concretize(s, a[0], 64); if (!p) { retV(s, VC(0)); return; } Val vp = loadN(s, VC(p), 8); if (!vp.conc()) unsup("symbolic vptr"); u64 top = loadN(s, VC(vp.c - 16), 8).c, ti = loadN(s, VC(vp.c - 8), 8).c; vector<u64> out; findBase(s, ti, p + top, a[2].c, out); std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); if (out.size() > 1) unsup("ambiguous dynamic_cast"); retV(s, VC(out.empty() ? 0 : out[0])); };
  // harness interface
  B["sym_int"] = [](State& s, KInst&, vector<Val>& a) { int w = (int)a[0].c; Val v = symVar(s, cstr(s, a[1]), w); retV(s, VE(mkZExt(toE(v, w), 64))); };
  B["sym_hidden"] = [](State& s, KInst&, vector<Val>& a) { int w = (int)a[0].c; E e = mkNamedVar("hidden#" + to_string(s.nsym++), w); retV(s, VE(mkZExt(e, 64))); };  // a value defined by assumptions, not an input
  B["sym_bytes"] = [](State& s, KInst&, vector<Val>& a) { u64 n = concretize(s, a[1], 64); string nm = cstr(s, a[2]); if (!n) { retVoid(s); return; } Ref r; Val off; resolve(s, a[0], n, true, r, off, "sym_bytes"); if (!off.conc()) unsup("sym_bytes"); for (u64 i = 0; i < n; ++i) { Val v = symVar(s, nm, 8); writeBytes(s, r, off.c + i, 1, v); } retVoid(s); };
  B["sym_pick"] = [](State& s, KInst& ki, vector<Val>& a) { u64 n = a[0].c; string nm = cstr(s, a[1]); if (n == 0) throw Kill{"assume", false}; vector<u64> vals; bool sh = shardN > 1 && !s.kv.count(0x5a5a); for (u64 i = 0; i < n; ++i) if (!sh || i % shardN == shardI) vals.push_back(i); if (vals.empty()) throw Kill{"assume", false}; s.kv[0x5a5a] = 1;
    for (size_t i = vals.size(); i-- > 1;) { State* o = new State(s); o->id = nextStateId++; ++totalForks; o->log.push_back({internStr(nm), 32, VC(vals[i])}); retV(*o, VC(vals[i])); pending.push_back(o); } s.log.push_back({internStr(nm), 32, VC(vals[0])}); retV(s, VC(vals[0])); };
  B["sym_assume"] = [](State& s, KInst&, vector<Val>& a) { E c = a[0].conc() ? mkBool(a[0].c != 0) : a[0].e->w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))); assumeE(s, c); retVoid(s); };
  B["sym_assert_"] = [](State& s, KInst&, vector<Val>& a) { E c = a[0].conc() ? mkBool(a[0].c != 0) : a[0].e->w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))); ++nAsserts; checkE(s, c, "assert", cstr(s, a[1])); retVoid(s); };
  B["sym_reach"] = [](State& s, KInst&, vector<Val>& a) { ++reached[cstr(s, a[0])]; retVoid(s); };
  B["sym_note"] = [](State& s, KInst&, vector<Val>& a) { s.trace.push_back(cstr(s, a[0]) + "=" + (a[1].conc() ? to_string((int64_t)a[1].c) : exprStr(a[1].e, 4) + " ~ " + to_string((int64_t)evalIn(s, a[1].e)))); if (verbose) std::cerr << "note " << s.trace.back() << "\n"; retVoid(s); };
  B["sym_notes"] = [](State& s, KInst&, vector<Val>& a) { s.trace.push_back(cstr(s, a[0]) + ": " + cstr(s, a[1])); if (verbose) std::cerr << "note " << s.trace.back() << "\n"; retVoid(s); };
  B["sym_is_symbolic"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(a[0].conc() ? 0 : 1)); };
  // decimal text of a concrete double, and the double of a concrete decimal text (mode 0 %g, 1 %f, 2 %e)
  B["sym_host_fmt"] = [](State& s, KInst&, vector<Val>& a) { if (!a[1].conc()) unsup("decimal text of a symbolic number"); double d; u64 r = a[1].c; memcpy(&d, &r, 8); char b[512]; int n = snprintf(b, sizeof b, a[3].c == 1 ? "%.*f" : a[3].c == 2 ? "%.*e" : "%.*g", (int)a[2].c, d); for (int i = 0; i < n; ++i) storeN(s, VC(a[0].c + i), 1, VC((unsigned char)b[i])); retV(s, VC(n)); };
  B["sym_host_strtod"] = [](State& s, KInst&, vector<Val>& a) { string t; for (u64 i = 0;; ++i) { Val v = loadN(s, VC(a[0].c + i), 1); if (!v.conc()) { if (getenv("SYM_DBG")) std::cerr << "symtext " << t << " next " << exprStr(v.e, 5) << "\n"; unsup("number read from symbolic text"); } if (!v.c) break; t += (char)v.c; } errno = 0; double d = strtod(t.c_str(), nullptr); bool rng = errno == ERANGE; u64 r; memcpy(&r, &d, 8); storeN(s, a[1], 4, VC(rng)); retV(s, VC(r)); };
  B["sym_concretize"] = [](State& s, KInst&, vector<Val>& a) { u64 v = concretize(s, a[0], 64); retV(s, VC(v)); };
  B["sym_mode"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(1)); };
  B["sym_alloc_cap"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(ALLOC_CAP)); };
  B["sym_undef"] = [](State& s, KInst&, vector<Val>& a) { Ref r; Val off; resolve(s, a[0], a[1].c, true, r, off, "sym_undef"); ObjState* o = tab(s, r.stk).wr(r.id); o->needSym(); for (u64 i = 0; i < a[1].c; ++i) o->sym[off.c + i] = UNDEF; retVoid(s); };
  // number of readable bytes at p according to the allocation (used by stub codecs)
  B["sym_done"] = [](State& s, KInst&, vector<Val>& a) { throw Kill{"done", false}; };
  B["sym_heap_live"] = [](State& s, KInst&, vector<Val>& a) { u64 n = 0; for (u32 i = 1; i < s.nextHeap; ++i) { Entry e = s.heap.get(i); if (e.mo && e.os && (e.mo->kind == MK::Heap || e.mo->kind == MK::New || e.mo->kind == MK::NewArr) && e.mo->name != "exception") ++n; } retV(s, VC(n)); };
  B["sym_mem_is_undef"] = [](State& s, KInst&, vector<Val>& a) { Ref r; Val off; resolve(s, a[0], a[1].c, false, r, off, "sym_mem_is_undef"); bool u = false; if (off.conc() && r.os->sym) for (u64 i = 0; i < a[1].c; ++i) { E e = r.os->sym[off.c + i]; if (e == UNDEF || (e && e->k == K::Var && gVars[(size_t)e->val].name.compare(0, 6, "undef#") == 0)) u = true; } retV(s, VC(u)); };
  // threads
  B["sym_thread_create"] = [](State& s, KInst&, vector<Val>& a) { Function* F = funcByAddr[a[0].c]; if (!F) unsup("thread function"); schedulePoint(s); int id = s.th.size(); if (s.th[0].vc.empty()) s.th[0].vc.resize(1, 1); Thread t; t.vc = s.t().vc; t.vc.resize(id + 1, 0); t.vc[id] = 1; s.th.push_back(t); s.t().vc.resize(std::max<size_t>(s.t().vc.size(), s.cur + 1), 0); ++s.t().vc[s.cur]; int me = s.cur; s.cur = id; vector<Val> args{a[1]}; pushCall(s, F, args, true, nullptr); s.cur = me; retV(s, VC(id)); };
  B["sym_thread_join"] = [](State& s, KInst&, vector<Val>& a) { int id = (int)a[0].c; if (!s.th[id].done) { s.t().waitJoin = id; blockAndSwitch(s); } s.t().waitJoin = -1; acquire(s, 0xdead0000ull + id); retVoid(s); };
  B["sym_thread_id"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(s.cur)); };
  B["sym_yield"] = [](State& s, KInst&, vector<Val>& a) { schedulePoint(s); retVoid(s); };
  B["pthread_mutex_lock"] = [](State& s, KInst&, vector<Val>& a) { mutexLock(s, concretize(s, a[0], 64)); retV(s, VC(0)); }; B["pthread_mutex_unlock"] = [](State& s, KInst&, vector<Val>& a) { mutexUnlock(s, concretize(s, a[0], 64)); retV(s, VC(0)); };
  B["pthread_mutex_trylock"] = [](State& s, KInst&, vector<Val>& a) { u64 m = a[0].c; schedulePoint(s); int& o = s.mutexOwner[m]; if (o) { retV(s, VC(16)); return; } o = s.cur + 1; acquire(s, m); retV(s, VC(0)); };
  for (const char* n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_mutexattr_settype", "pthread_rwlock_init", "pthread_rwlock_destroy"}) B[n] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(0)); };
  B["pthread_self"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(s.cur + 1)); };
  // math on concrete values
  mathFn("pow", 64, [](double x, double y) { return pow(x, y); }, 2); mathFn("powf", 32, [](double x, double y) { return (double)powf((float)x, (float)y); }, 2); mathFn("log", 64, [](double x, double) { return log(x); }, 1); mathFn("log2", 64, [](double x, double) { return log2(x); }, 1); mathFn("log10", 64, [](double x, double) { return log10(x); }, 1); mathFn("exp", 64, [](double x, double) { return exp(x); }, 1); mathFn("sin", 64, [](double x, double) { return sin(x); }, 1); mathFn("cos", 64, [](double x, double) { return cos(x); }, 1); mathFn("fmod", 64, [](double x, double y) { return fmod(x, y); }, 2); mathFn("logf", 32, [](double x, double) { return (double)logf((float)x); }, 1); mathFn("expf", 32, [](double x, double) { return (double)expf((float)x); }, 1); mathFn("atan2", 64, [](double x, double y) { return atan2(x, y); }, 2); mathFn("hypot", 64, [](double x, double y) { return hypot(x, y); }, 2); mathFn("cbrt", 64, [](double x, double) { return cbrt(x); }, 1); mathFn("acos", 64, [](double x, double) { return acos(x); }, 1);
  auto rnd = [](int w, int mode) { return [=](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FRound, toE(a[0], w), w, mode))); }; };
  B["floor"] = rnd(64, 2); B["floorf"] = rnd(32, 2); B["ceil"] = rnd(64, 3); B["ceilf"] = rnd(32, 3); B["trunc"] = rnd(64, 4); B["truncf"] = rnd(32, 4); B["round"] = rnd(64, 1); B["roundf"] = rnd(32, 1); B["rint"] = rnd(64, 0); B["nearbyint"] = rnd(64, 0); B["rintf"] = rnd(32, 0);
  for (const char* n : {"lround", "llround"}) B[n] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FPToSI, mkFP1(K::FRound, toE(a[0], 64), 64, 1), 64))); }; for (const char* n : {"lroundf", "llroundf"}) B[n] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FPToSI, mkFP1(K::FRound, toE(a[0], 32), 32, 1), 64))); };
  for (const char* n : {"lrint", "llrint"}) B[n] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FPToSI, mkFP1(K::FRound, toE(a[0], 64), 64, 0), 64))); };
  B["sqrt"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FSqrt, toE(a[0], 64), 64))); }; B["sqrtf"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFP1(K::FSqrt, toE(a[0], 32), 32))); };
  B["fabs"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFAbs(toE(a[0], 64)))); };
  B["fmin"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFPMin(toE(a[0], 64), toE(a[1], 64)))); }; B["fmax"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VE(mkFPMax(toE(a[0], 64), toE(a[1], 64)))); };
  B["time"] = [](State& s, KInst&, vector<Val>& a) { if (a[0].c) storeN(s, a[0], 8, VC(1700000000)); retV(s, VC(1700000000)); };
  B["_ZNSt6chrono3_V212system_clock3nowEv"] = B["_ZNSt6chrono3_V212steady_clock3nowEv"] = [](State& s, KInst&, vector<Val>& a) { retV(s, VC(1700000000000000000ull)); };
  B["__errno_location"] = [](State& s, KInst&, vector<Val>& a) { static const u64 key = 0xe44e0; if (!s.kv.count(key)) s.kv[key] = allocObj(s, 8, nullptr, MK::Ext, "errno", false); retV(s, VC(s.kv[key])); };
}

static void doCall(State& s, KInst& ki) {
  auto* cb = cast<CallBase>(ki.I); if (cb->isInlineAsm()) { retVoid(s); return; }
  Function* F = cb->getCalledFunction(); unsigned na = cb->arg_size(); vector<Val> a(na); for (unsigned i = 0; i < na; ++i) { Value* v = cb->getArgOperand(i); if (v->getType()->isMetadataTy()) continue; a[i] = read(s, ki.ops[i]); }
  if (!F) { Value* cv = cb->getCalledOperand(); if (auto* al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject()); }
  if (!F) { Val p = read(s, ki.ops.back()); if (cb->getOpcode() == Instruction::Invoke) p = read(s, ki.ops[cb->getNumOperands() - 1]); u64 x = concretize(s, p, 64); auto it = funcByAddr.find(x); if (it == funcByAddr.end()) fatalErr(s, "memory", x < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); F = it->second; }
  if (F->isIntrinsic()) { intrinsic(s, ki, F, a); return; }
  auto h = handlerOf.find(F); if (h == handlerOf.end()) { auto b = builtins.find(F->getName().str()); h = handlerOf.emplace(F, b == builtins.end() ? nullptr : &b->second).first; }
  if (h->second) { (*h->second)(s, ki, a); return; }
  if (F->isDeclaration()) unsup("external function " + llvm::demangle(F->getName().str()));
  pushCall(s, F, a, false, cb);
}
