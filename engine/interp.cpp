#include "machine.h"
namespace sx {
static Arith::IOp iopOf(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return Arith::ADD; case Instruction::Sub: return Arith::SUB;
    case Instruction::Mul: return Arith::MUL; case Instruction::SDiv: return Arith::SDIV;
    case Instruction::SRem: return Arith::SREM; case Instruction::UDiv: return Arith::UDIV;
    case Instruction::URem: return Arith::UREM; case Instruction::Shl: return Arith::SHL;
    case Instruction::LShr: return Arith::LSHR; case Instruction::AShr: return Arith::ASHR;
    case Instruction::And: return Arith::AND; case Instruction::Or: return Arith::OR;
    default: return Arith::XOR;
  }
}
static Arith::Pred predOf(CmpInst::Predicate p) {
  switch (p) {
    case CmpInst::ICMP_EQ: return Arith::EQ; case CmpInst::ICMP_NE: return Arith::NE;
    case CmpInst::ICMP_UGT: return Arith::UGT; case CmpInst::ICMP_UGE: return Arith::UGE;
    case CmpInst::ICMP_ULT: return Arith::ULT; case CmpInst::ICMP_ULE: return Arith::ULE;
    case CmpInst::ICMP_SGT: return Arith::SGT; case CmpInst::ICMP_SGE: return Arith::SGE;
    case CmpInst::ICMP_SLT: return Arith::SLT; default: return Arith::SLE;
  }
}
void Machine::enter(FnInfo* fi, std::vector<Val>& args, const CallBase* site, int dst) {
  decode(fi);
  if (stack.size() > 3000) throw PathError{"stack-overflow", "recursion too deep"};
  fi->hit = true;
  stack.emplace_back();
  Frame& f = stack.back();
  f.f = fi; f.site = site; f.dst = dst;
  f.r.resize(fi->nslots);
  unsigned n = fi->F->arg_size();
  for (unsigned i = 0; i < n && i < args.size(); ++i) {
    f.r[i] = args[i];
    if (site && site->isByValArgument(i)) {
      uint64_t sz = DL->getTypeAllocSize(site->getParamByValType(i));
      uint64_t a = alloc(sz, O_STACK);
      copyMem(a, addrOf(args[i]), sz);
      stack.back().allocas.push_back(a);
      stack.back().r[i] = Val(a);
    }
  }
}
void Machine::leave(Val v) {
  Frame& f = stack.back();
  for (uint64_t a : f.allocas) if (Obj* o = find(a)) if (o->alive) kill(o);
  const CallBase* site = f.site;
  int dst = f.dst;
  stack.pop_back();
  if (stack.empty()) return;
  Frame& c = stack.back();
  if (dst >= 0) c.r[dst] = v;
  if (!site) return;
  if (auto* inv = dyn_cast<InvokeInst>(site)) jump(c, inv->getNormalDest());
  else c.ip++;
}
void Machine::jump(Frame& f, const BasicBlock* to) {
  const BasicBlock* from = f.f->blocks[f.bb].empty() ? nullptr : f.f->blocks[f.bb][0].I->getParent();
  f.bb = f.f->bbIdx[to];
  f.ip = 0;
  f.prev = from;
  auto& b = f.f->blocks[f.bb];
  std::vector<Val> tmp;
  unsigned n = 0;
  while (n < b.size() && b[n].opc == Instruction::PHI) {
    auto* p = cast<PHINode>(b[n].I);
    int ix = p->getBasicBlockIndex(from);
    tmp.push_back(get(f, b[n].ops[ix]));
    ++n;
  }
  for (unsigned i = 0; i < n; ++i) f.r[b[i].dst] = tmp[i];
  f.ip = n;
}
static const std::map<std::string, std::string> kStdBase = {
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
bool Machine::tiMatches(uint64_t thrown, uint64_t want) {
  std::set<uint64_t> seen;
  while (thrown && seen.insert(thrown).second) {
    if (thrown == want) return true;
    const GlobalVariable* g = gbySlot[thrown >> SLOT];
    if (!g) return false;
    if (g->hasInitializer()) {
      auto* c = g->getInitializer();
      if (c->getType()->isStructTy() && c->getNumOperands() >= 3 && c->getOperand(2)->getType()->isPointerTy()) { thrown = constVal(cast<Constant>(c->getOperand(2))).c; continue; }
      return false;
    }
    auto it = kStdBase.find(g->getName().str());
    if (it == kStdBase.end()) return false;
    // the wanted one may not be declared in this module
    auto* b = M->getNamedGlobal(it->second);
    std::string nm = it->second;
    while (!b && kStdBase.count(nm)) { nm = kStdBase.at(nm); b = M->getNamedGlobal(nm); }
    if (!b) return false;
    thrown = gaddr[b];
  }
  return false;
}
void Machine::unwind() {
  while (!stack.empty()) {
    Frame& f = stack.back();
    const Instruction* I = f.f->blocks[f.bb][f.ip].I;
    if (auto* inv = dyn_cast<InvokeInst>(I)) {
      auto* lp = inv->getLandingPadInst();
      uint64_t sel = 0;
      bool ok = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i)
        if (lp->isCatch(i)) {
          Val c = constVal(lp->getClause(i));
          if (c.c == 0 || tiMatches(excTI, c.c)) { sel = c.c ? (c.c >> SLOT) : 0x7ffffff; ok = true; break; }
        } else ok = true;  // filter: treat as cleanup
      if (ok) {
        jump(f, inv->getUnwindDest());
        Frame& g = stack.back();
        DI& d = g.f->blocks[g.bb][g.ip];
        Node* n = A.mk(K_AGG);
        n->kids.push_back(Val(excObj)); n->kids.push_back(Val(sel));
        g.r[d.dst] = Val(n);
        g.ip++;
        return;
      }
    }
    for (uint64_t a : f.allocas) if (Obj* o = find(a)) if (o->alive) kill(o);
    if (stack.size() == 1) break;
    stack.pop_back();
  }
  const GlobalVariable* g = (excTI >> SLOT) < gbySlot.size() ? gbySlot[excTI >> SLOT] : nullptr;
  throw PathError{"uncaught-exception", "uncaught exception " + (g ? llvm::demangle(g->getName().str()) : std::string("?"))};
}
void Machine::call(const CallBase& cb, const DI& d) {
  Frame& f = stack.back();
  const Function* F = cb.getCalledFunction();
  unsigned calleeOp = d.ops.size() - 1;
  if (isa<InvokeInst>(cb)) calleeOp = d.ops.size() - 1;
  if (!F) {
    if (auto* ia = dyn_cast<InlineAsm>(cb.getCalledOperand())) {
      (void)ia;
      if (!cb.getType()->isVoidTy()) throw Unsupported{"inline asm with result"};
      if (auto* inv = dyn_cast<InvokeInst>(&cb)) jump(f, inv->getNormalDest()); else f.ip++;
      return;
    }
    uint64_t a = addrOf(get(f, d.ops[calleeOp]));
    auto it = faddr.find(a);
    if (it == faddr.end()) {
      if (a < 4096) throw PathError{"null-deref", "call through null pointer"};
      throw PathError{"wild-call", "call through invalid function pointer"};
    }
    F = it->second;
  }
  if (F->isIntrinsic()) {
    if (intrinsic(cb, F, d)) return;
    throw Unsupported{"intrinsic " + F->getName().str()};
  }
  std::vector<Val> args;
  for (unsigned i = 0; i < cb.arg_size(); ++i) args.push_back(get(f, d.ops[i]));
  FnInfo* fi = info(F);
  const Builtin* b = lookupBuiltin(fi);
  if (b) {
    Val v;
    try { v = (*b)(*this, cb, args); } catch (UnwindNow&) { unwind(); return; }
    Frame& g = stack.back();
    if (d.dst >= 0) g.r[d.dst] = v;
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) jump(g, inv->getNormalDest()); else g.ip++;
    return;
  }
  if (F->isDeclaration()) throw Unsupported{"external function " + llvm::demangle(F->getName().str())};
  enter(fi, args, &cb, d.dst);
}
void Machine::step() {
  Frame& f = stack.back();
  const DI& d = f.f->blocks[f.bb][f.ip];
  const Instruction* I = d.I;
  if (++steps > maxSteps) throw PathError{"step-limit", "execution does not terminate within the step bound"};
  S.st.instrs++;
  auto op = [&](unsigned i) { return get(f, d.ops[i]); };
  auto set = [&](Val v) { f.r[d.dst] = v; f.ip++; };
  Type* T = I->getType();
  switch (d.opc) {
    case Instruction::Ret: { Val v; if (!d.ops.empty()) v = op(0); leave(v); return; }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(f, b->getSuccessor(0)); return; }
      Val c = op(0);
      bool t;
      if (c.conc()) t = c.c & 1;
      else if (c.undef()) throw PathError{"uninit", "branch on uninitialised value"};
      else t = S.decide(A.bexpr(c));
      jump(f, b->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* s = cast<SwitchInst>(I);
      Val c = op(0);
      unsigned w = s->getCondition()->getType()->getIntegerBitWidth();
      if (c.undef()) throw PathError{"uninit", "switch on uninitialised value"};
      const BasicBlock* to = s->getDefaultDest();
      for (auto& k : s->cases()) {
        uint64_t kv = k.getCaseValue()->getZExtValue();
        bool eq = c.conc() ? (c.c & maskW(w)) == kv : (A.icmp(Arith::EQ, c, Val(kv), w).conc() ? A.icmp(Arith::EQ, c, Val(kv), w).c & 1 : S.decide(A.bexpr(A.icmp(Arith::EQ, c, Val(kv), w))));
        if (eq) { to = k.getCaseSuccessor(); break; }
      }
      jump(f, to);
      return;
    }
    case Instruction::Unreachable: throw PathError{"unreachable", "reached undefined control flow (missing return or unreachable)"};
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::SRem:
    case Instruction::UDiv: case Instruction::URem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      auto o = iopOf(d.opc);
      if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        Node* n = A.mk(K_AGG);
        Val a = op(0), b = op(1);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) { Val k = A.iop(o, kid(a, i), kid(b, i), vt->getElementType()->getIntegerBitWidth()); n->kids.push_back(k); }
        set(Val(n));
        return;
      }
      unsigned w = T->getIntegerBitWidth();
      if (w > 64) throw Unsupported{"wide integer arithmetic"};
      set(A.iop(o, op(0), op(1), w));
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Arith::FOp o = d.opc == Instruction::FAdd ? Arith::FADD : d.opc == Instruction::FSub ? Arith::FSUB : d.opc == Instruction::FMul ? Arith::FMUL : Arith::FDIV;
      if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        Node* n = A.mk(K_AGG);
        Val a = op(0), b = op(1);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) { Val k = A.fop(o, kid(a, i), kid(b, i), bits(vt->getElementType())); n->kids.push_back(k); }
        set(Val(n));
        return;
      }
      set(A.fop(o, op(0), op(1), bits(T)));
      return;
    }
    case Instruction::FRem: {
      Val a = op(0), b = op(1);
      set(A.rfmod(a, b, bits(T)));
      return;
    }
    case Instruction::FNeg: {
      if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        Node* n = A.mk(K_AGG); Val a = op(0);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) { Val k = A.fneg(kid(a, i), bits(vt->getElementType())); n->kids.push_back(k); }
        set(Val(n)); return;
      }
      set(A.fneg(op(0), bits(T))); return;
    }
    case Instruction::ICmp: {
      auto* c = cast<ICmpInst>(I);
      Type* ot = c->getOperand(0)->getType();
      if (ot->isVectorTy()) throw Unsupported{"vector icmp"};
      unsigned w = bits(ot);
      if (w > 64) throw Unsupported{"wide icmp"};
      set(A.icmp(predOf(c->getPredicate()), op(0), op(1), w));
      return;
    }
    case Instruction::FCmp: {
      auto* c = cast<FCmpInst>(I);
      set(A.fcmp((unsigned)c->getPredicate(), op(0), op(1), bits(c->getOperand(0)->getType())));
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      Type* st = I->getOperand(0)->getType();
      if (T->isVectorTy()) throw Unsupported{"vector cast"};
      unsigned fw = st->getIntegerBitWidth(), tw = T->getIntegerBitWidth();
      if (fw > 64 || tw > 64) {
        Val v = op(0);
        if (d.opc == Instruction::Trunc && v.is(K_CONCAT)) { set(A.concatTrunc(v, tw)); return; }
        throw Unsupported{"wide integer cast"};
      }
      set(d.opc == Instruction::ZExt ? A.zext(op(0), fw, tw) : d.opc == Instruction::SExt ? A.sext(op(0), fw, tw) : A.trunc(op(0), fw, tw));
      return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      if (auto* vt = dyn_cast<FixedVectorType>(T)) {
        Node* n = A.mk(K_AGG); Val a = op(0);
        unsigned fw = bits(cast<FixedVectorType>(I->getOperand(0)->getType())->getElementType()), tw = bits(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); ++i) { Val k = A.fconv(kid(a, i), fw, tw); n->kids.push_back(k); }
        set(Val(n)); return;
      }
      set(A.fconv(op(0), bits(I->getOperand(0)->getType()), bits(T)));
      return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI:
      set(A.toInt(op(0), bits(I->getOperand(0)->getType()), bits(T), d.opc == Instruction::FPToUI)); return;
    case Instruction::SIToFP: case Instruction::UIToFP:
      set(A.fromInt(op(0), bits(I->getOperand(0)->getType()), bits(T), d.opc == Instruction::UIToFP)); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
      Val v = op(0);
      if (d.opc == Instruction::PtrToInt && T->getIntegerBitWidth() < 64) v = A.trunc(v, 64, T->getIntegerBitWidth());
      set(v); return;
    }
    case Instruction::BitCast: {
      Type* st = I->getOperand(0)->getType();
      Val v = op(0);
      if (st == T || (!st->isVectorTy() && !T->isVectorTy())) {
        if (isFP(T) && (v.is(K_INT) || v.is(K_CONCAT))) throw Unsupported{"integer bits as float"};
        set(v); return;
      }
      uint64_t a = alloc(16, O_STACK);
      storeTy(a, v, st);
      Val r = loadTy(a, T);
      kill(find(a));
      set(r); return;
    }
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I);
      uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) sz *= (uint64_t)A.force(op(0), 64);
      uint64_t p = alloc(sz, O_STACK);
      stack.back().allocas.push_back(p);
      set(Val(p)); return;
    }
    case Instruction::Load: set(loadTy(addrOf(op(0)), T)); return;
    case Instruction::Store: storeTy(addrOf(op(1)), op(0), I->getOperand(0)->getType()); f.ip++; return;
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      if (T->isVectorTy()) throw Unsupported{"vector gep"};
      Val p = op(0);
      unsigned k = 1;
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti, ++k) {
        if (StructType* st = ti.getStructTypeOrNull()) {
          uint64_t o = DL->getStructLayout(st)->getElementOffset(d.ops[k].k.c);
          if (o) p = A.iop(Arith::ADD, p, Val(o), 64);
        } else {
          Val ix = op(k);
          unsigned w = g->getOperand(k)->getType()->getIntegerBitWidth();
          if (w < 64) ix = A.sext(ix, w, 64);
          uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
          if (ix.conc()) { if (ix.c) p = A.iop(Arith::ADD, p, Val(ix.c * es), 64); }
          else p = A.iop(Arith::ADD, p, A.iop(Arith::MUL, ix, Val(es), 64), 64);
        }
      }
      set(p); return;
    }
    case Instruction::Select: {
      Val c = op(0), a = op(1), b = op(2);
      if (I->getOperand(0)->getType()->isVectorTy()) throw Unsupported{"vector select"};
      if (c.conc()) { set((c.c & 1) ? a : b); return; }
      if (c.undef()) throw PathError{"uninit", "select on uninitialised value"};
      if (T->isIntegerTy(1)) { set(A.select(c, a, b, K_BOOL, 1)); return; }
      if (T->isIntegerTy()) { set(A.select(c, a, b, K_INT, T->getIntegerBitWidth())); return; }
      if (isFP(T) && !S.nonlinear && modeName == "real" && !a.undef() && !b.undef() &&
          (!a.conc() || std::isfinite(A.cd(a, bits(T)))) && (!b.conc() || std::isfinite(A.cd(b, bits(T))))) {
        unsigned w = bits(T);
        int qa, qb; double ma, mb;
        A.qm(a, w, qa, ma); A.qm(b, w, qb, mb);
        set(A.mkReal(z3::ite(A.bexpr(c), A.rexpr(a, w), A.rexpr(b, w)), (qa == INT_MIN || qb == INT_MIN) ? INT_MIN : std::min(qa, qb), std::max(ma, mb), w));
        return;
      }
      if (isFP(T) && modeName == "fp" && !a.undef() && !b.undef()) { unsigned w = bits(T); set(A.mkFp(z3::ite(A.bexpr(c), A.fexpr(a, w), A.fexpr(b, w)), w)); return; }
      bool t = S.decide(A.bexpr(c));
      set(t ? a : b); return;
    }
    case Instruction::ExtractValue: {
      Val v = op(0);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = kid(v, i);
      set(v); return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      std::function<Val(Val, Type*, unsigned, Val)> ins = [&](Val agg, Type* t, unsigned depth, Val x) -> Val {
        if (depth == iv->getNumIndices()) return x;
        unsigned ix = iv->getIndices()[depth];
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        Node* nn = A.mk(K_AGG);
        for (unsigned i = 0; i < n; ++i) { Val k = kid(agg, i); if (i == ix) k = ins(k, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), depth + 1, x); nn->kids.push_back(k); }
        return Val(nn);
      };
      set(ins(op(0), T, 0, op(1))); return;
    }
    case Instruction::ExtractElement: set(kid(op(0), (unsigned)A.force(op(1), 64))); return;
    case Instruction::InsertElement: {
      Val v = op(0);
      unsigned ix = (unsigned)A.force(op(2), 64), n = cast<FixedVectorType>(T)->getNumElements();
      Node* nn = A.mk(K_AGG);
      for (unsigned i = 0; i < n; ++i) { Val k = i == ix ? op(1) : kid(v, i); nn->kids.push_back(k); }
      set(Val(nn)); return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      Val a = op(0), b = op(1);
      unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      Node* nn = A.mk(K_AGG);
      for (int m : sv->getShuffleMask()) { Val k = m < 0 ? A.undef() : m < (int)n ? kid(a, m) : kid(b, m - n); nn->kids.push_back(k); }
      set(Val(nn)); return;
    }
    case Instruction::Call: case Instruction::Invoke: call(*cast<CallBase>(I), d); return;
    case Instruction::Resume: {
      // pop this frame and continue unwinding in the caller
      Frame& g = stack.back();
      for (uint64_t a : g.allocas) if (Obj* o = find(a)) if (o->alive) kill(o);
      if (stack.size() == 1) throw PathError{"uncaught-exception", "uncaught exception"};
      stack.pop_back();
      unwind();
      return; }
    case Instruction::LandingPad: throw Unsupported{"landingpad"};
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}
void Machine::run(const Function* F, std::vector<Val> args) {
  enter(info(F), args, nullptr, -1);
  size_t base = stack.size();
  while (stack.size() >= base) step();
}
bool Machine::intrinsic(const CallBase& cb, const Function* F, const DI& d) {
  Frame& f = stack.back();
  auto op = [&](unsigned i) { return get(f, d.ops[i]); };
  auto fin = [&](Val v) { Frame& g = stack.back(); if (d.dst >= 0) g.r[d.dst] = v; if (auto* inv = dyn_cast<InvokeInst>(&cb)) jump(g, inv->getNormalDest()); else g.ip++; return true; };
  Type* T = cb.getType();
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = (uint64_t)A.force(op(2), 64);
      copyMem(addrOf(op(0)), addrOf(op(1)), n);
      return fin(Val());
    }
    case Intrinsic::memset: {
      uint64_t n = (uint64_t)A.force(op(2), 64);
      Val b = op(1);
      if (!b.conc()) throw Unsupported{"symbolic memset"};
      setMem(addrOf(op(0)), (uint8_t)b.c, n);
      return fin(Val());
    }
    case Intrinsic::lifetime_start: {
      Val p = op(1);
      if (p.conc()) if (Obj* o = find(p.c)) if (o->kind == O_STACK && o->alive && p.c == o->base) { o->cells.clear(); std::fill(o->st.begin(), o->st.end(), 0); }
      return fin(Val());
    }
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
      return fin(Val());
    case Intrinsic::stacksave: case Intrinsic::invariant_start: return fin(Val((uint64_t)0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
      return fin(op(0));
    case Intrinsic::is_constant: return fin(Val((uint64_t)0));
    case Intrinsic::objectsize: return fin(Val((uint64_t)-1));
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw PathError{"trap", "trap"};
    case Intrinsic::eh_typeid_for: return fin(Val(op(0).c >> SLOT));
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
      unsigned w = T->getIntegerBitWidth();
      Val a = op(0), b = op(1);
      auto id = F->getIntrinsicID();
      Val c = A.icmp(id == Intrinsic::smax ? Arith::SGT : id == Intrinsic::smin ? Arith::SLT : id == Intrinsic::umax ? Arith::UGT : Arith::ULT, a, b, w);
      if (c.conc()) return fin(c.c ? a : b);
      return fin(A.select(c, a, b, K_INT, w));
    }
    case Intrinsic::abs: {
      unsigned w = T->getIntegerBitWidth();
      Val a = op(0), c = A.icmp(Arith::SLT, a, Val((uint64_t)0), w), n = A.iop(Arith::SUB, Val((uint64_t)0), a, w);
      if (c.conc()) return fin(c.c ? n : a);
      return fin(A.select(c, n, a, K_INT, w));
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      unsigned w = T->getIntegerBitWidth();
      uint64_t v = (uint64_t)A.force(op(0), w) & maskW(w), r = 0;
      auto id = F->getIntrinsicID();
      if (id == Intrinsic::ctpop) r = __builtin_popcountll(v);
      else if (id == Intrinsic::ctlz) r = v ? __builtin_clzll(v) - (64 - w) : w;
      else if (id == Intrinsic::cttz) r = v ? __builtin_ctzll(v) : w;
      else r = __builtin_bswap64(v) >> (64 - w);
      return fin(Val(r));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned w = T->getStructElementType(0)->getIntegerBitWidth();
      uint64_t x = (uint64_t)A.force(op(0), w) & maskW(w), y = (uint64_t)A.force(op(1), w) & maskW(w);
      i128 a, b, r;
      auto id = F->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::smul_with_overflow || id == Intrinsic::ssub_with_overflow;
      a = sg ? (i128)sextW(x, w) : (i128)x; b = sg ? (i128)sextW(y, w) : (i128)y;
      if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = a + b;
      else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = a - b;
      else if (!sg) { unsigned __int128 p = (unsigned __int128)x * y; bool ov = (w == 64 ? p >> 64 : p >> w) != 0; Node* n = A.mk(K_AGG); n->kids.push_back(Val((uint64_t)p & maskW(w))); n->kids.push_back(Val((uint64_t)ov)); return fin(Val(n)); }
      else r = a * b;
      bool ov = sg ? (r < Arith::smin(w) || r > Arith::smax(w)) : (r < 0 || r > (i128)maskW(w));
      Node* n = A.mk(K_AGG); n->kids.push_back(Val((uint64_t)r & maskW(w))); n->kids.push_back(Val((uint64_t)ov));
      return fin(Val(n));
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = T->getIntegerBitWidth();
      uint64_t a = (uint64_t)A.force(op(0), w) & maskW(w), b = (uint64_t)A.force(op(1), w) & maskW(w), c = (uint64_t)A.force(op(2), w) % w;
      uint64_t r = F->getIntrinsicID() == Intrinsic::fshl ? (c ? (a << c) | (b >> (w - c)) : a) : (c ? (a << (w - c)) | (b >> c) : b);
      return fin(Val(r & maskW(w)));
    }
    case Intrinsic::fabs: return fin(A.rabs(op(0), bits(T)));
    case Intrinsic::sqrt: return fin(A.rsqrt(op(0), bits(T)));
    case Intrinsic::floor: return fin(A.rfloor(op(0), bits(T)));
    case Intrinsic::ceil: return fin(A.rceil(op(0), bits(T)));
    case Intrinsic::trunc: return fin(A.rtrunc(op(0), bits(T)));
    case Intrinsic::round: return fin(A.rround(op(0), bits(T)));
    case Intrinsic::sin: return fin(A.rsin(op(0), bits(T), false));
    case Intrinsic::cos: return fin(A.rsin(op(0), bits(T), true));
    case Intrinsic::pow: { std::vector<Val> ar{op(0), op(1)}; return fin(builtins["pow"](*this, cb, ar)); }
    case Intrinsic::exp: return fin(A.rexp(op(0), bits(T)));
    case Intrinsic::log: return fin(A.rlog(op(0), bits(T)));
    case Intrinsic::fmuladd: case Intrinsic::fma: { unsigned w = bits(T); return fin(A.fop(Arith::FADD, A.fop(Arith::FMUL, op(0), op(1), w), op(2), w)); }
    case Intrinsic::maxnum: case Intrinsic::minnum: {
      unsigned w = bits(T);
      Val a = op(0), b = op(1), c = A.fcmp(F->getIntrinsicID() == Intrinsic::maxnum ? 2 : 4, a, b, w);
      if (c.conc()) return fin(c.c ? a : b);
      return fin(S.decide(A.bexpr(c)) ? a : b);
    }
    case Intrinsic::copysign: {
      unsigned w = bits(T);
      Val a = op(0), b = op(1);
      if (a.conc() && b.conc()) return fin(A.cfp(std::copysign(A.cd(a, w), A.cd(b, w)), w));
      Val m = A.rabs(a, w), c = A.fcmp(4, b, A.cfp(0, w), w);
      bool neg = c.conc() ? c.c : S.decide(A.bexpr(c));
      return fin(neg ? A.fneg(m, w) : m);
    }
    case Intrinsic::is_fpclass: {
      Val a = op(0); unsigned mask = (unsigned)op(1).c;
      unsigned w = bits(cb.getArgOperand(0)->getType());
      if (a.conc()) {
        double x = A.cd(a, w);
        bool sn = std::signbit(x), r = false;
        if (std::isnan(x)) r = mask & 3;
        else if (std::isinf(x)) r = mask & (sn ? 4 : 0x200);
        else if (x == 0) r = mask & (sn ? 0x20 : 0x40);
        else r = mask & (sn ? 0x18 : 0x180);
        return fin(Val((uint64_t)r));
      }
      if (a.undef()) return fin(a);
      if (a.is(K_REAL)) {
        if ((mask & 0x1f8) == 0) return fin(Val((uint64_t)0));
        if ((mask & 0x1f8) == 0x1f8) return fin(Val(1));
      }
      throw Unsupported{"is.fpclass"};
    }
    default: return false;
  }
}
}  // namespace sx
