// LLVM-IR interpreter over symbolic values: state, memory, decoding.
#pragma once
#include "arith.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <functional>
namespace sx {
using namespace llvm;

struct Op { int slot = -1; Val k; };
struct DI {
  const Instruction* I;
  unsigned opc;
  int dst = -1;
  std::vector<Op> ops;
};
struct FnInfo;
struct Machine;
struct Frame;
typedef std::function<Val(Machine&, const CallBase&, std::vector<Val>&)> Builtin;
struct FnInfo {
  const Function* F;
  unsigned nslots = 0;
  bool decoded = false;
  std::vector<std::vector<DI>> blocks;
  std::map<const BasicBlock*, unsigned> bbIdx;
  const Builtin* bi = nullptr;
  bool looked = false;
  bool inRepo = false;
  bool hit = false;
};
struct Frame {
  FnInfo* f;
  std::vector<Val> r;
  unsigned bb = 0, ip = 0;
  const BasicBlock* prev = nullptr;
  std::vector<uint64_t> allocas;
  const CallBase* site = nullptr;  // in the caller
  int dst = -1;                    // in the caller
};

struct UnwindNow {};
struct Machine {
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  Sym S;
  Arith A;
  std::map<const Function*, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const Value*, uint64_t> gaddr;   // globals and functions
  std::unordered_map<uint64_t, const Function*> faddr;
  std::vector<const GlobalVariable*> gbySlot;
  size_t nGlobSlots = 1;
  std::vector<std::unique_ptr<Obj>> objs;  // by slot
  std::vector<Frame> stack;
  uint64_t steps = 0, maxSteps = 4000000;
  std::map<std::string, Builtin> builtins;
  std::vector<std::pair<std::string, Builtin>> prefixes;
  std::set<std::string> stubsUsed;
  // exceptions
  uint64_t excObj = 0, excTI = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught;
  // results
  std::map<std::string, uint64_t> reach, checkN;
  std::vector<Violation> viol;
  std::map<std::string, int> violN;
  struct Witness { std::vector<std::pair<std::string, std::string>> inputs; std::string trace; std::vector<std::pair<std::string, double>> obs; };
  std::vector<Witness> wit;
  std::string trace;
  std::vector<std::pair<std::string, Val>> obs;
  std::string modeName = "real";
  uint64_t rngState = 1;
  bool stopAll = false;
  bool inGlobalInit = false;

  Machine() : A(S) {}
  static constexpr uint64_t SLOT = 24, BIAS = 0x400000;

  // ------------------------------------------------------------ memory
  uint64_t alloc(uint64_t size, ObjKind k) {
    if (size > 8000000) throw Unsupported{"allocation too large: " + std::to_string(size)};
    uint64_t slot = objs.size();
    uint64_t base = (slot << SLOT) + BIAS;
    objs.emplace_back(new Obj(base, size, k));
    return base;
  }
  Obj* globalObj(size_t slot) {
    const GlobalVariable* g = gbySlot[slot];
    if (!g) return nullptr;
    uint64_t sz = DL->getTypeAllocSize(g->getValueType());
    if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 4096);
    objs[slot].reset(new Obj((slot << SLOT) + BIAS, sz, g->isConstant() ? O_CONST : O_GLOBAL));
    Obj* o = objs[slot].get();
    std::fill(o->st.begin(), o->st.end(), 1);
    if (g->hasInitializer()) initConst(o, 0, g->getInitializer());
    return o;
  }
  Obj* find(uint64_t addr) {
    uint64_t slot = addr >> SLOT;
    if (slot == 0 || slot >= objs.size()) return nullptr;
    if (slot < nGlobSlots && !objs[slot]) return globalObj(slot);
    return objs[slot].get();
  }
  [[noreturn]] void memErr(const std::string& what, uint64_t addr, Obj* o, uint64_t n) {
    std::string m = what + " of " + std::to_string(n) + " bytes";
    if (addr < 4096) throw PathError{"null-deref", m + " through null pointer"};
    if (!o) throw PathError{"wild-pointer", m + " at invalid address"};
    if (!o->alive) throw PathError{o->kind == O_STACK ? "use-after-return" : "use-after-free", m};
    throw PathError{"out-of-bounds", m + " at offset " + std::to_string((int64_t)(addr - o->base)) + " of object of size " + std::to_string(o->size)};
  }
  Obj* access(uint64_t addr, uint64_t n, const char* what) {
    Obj* o = find(addr);
    if (!o || !o->alive || addr < o->base || addr - o->base + n > o->size || addr - o->base > o->size) memErr(what, addr, o, n);
    return o;
  }
  void initConst(Obj* o, uint64_t off, const Constant* c) {
    if (isa<UndefValue>(c) || c->isNullValue()) return;
    Type* t = c->getType();
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(ca->getElementType());
      for (unsigned i = 0; i < ca->getNumElements(); ++i) initConst(o, off + i * es, ca->getElementAsConstant(i));
    } else if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) initConst(o, off + (uint64_t)sl->getElementOffset(i), c->getAggregateElement(i));
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); ++i) initConst(o, off + i * es, c->getAggregateElement(i));
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t es = DL->getTypeAllocSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); ++i) initConst(o, off + i * es, c->getAggregateElement(i));
    } else {
      uint64_t n = DL->getTypeStoreSize(t);
      if (n > 8) {  // i128 / x86_fp80 constant
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
          for (unsigned i = 0; i < n; ++i) o->bytes[off + i] = (uint8_t)ci->getValue().extractBitsAsZExtValue(8, i * 8);
        }
        return;
      }
      Val v = constVal(c);
      for (unsigned i = 0; i < n; ++i) o->bytes[off + i] = (uint8_t)(v.c >> (8 * i));
    }
  }
  Val loadScalar(uint64_t addr, unsigned n) {
    Obj* o = access(addr, n, "read");
    uint64_t off = addr - o->base;
    bool allc = true;
    for (unsigned i = 0; i < n; ++i) if (o->st[off + i] != 1) { allc = false; break; }
    if (allc && n <= 8) {
      uint64_t v = 0;
      memcpy(&v, &o->bytes[off], n);
      return Val(v);
    }
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == n) return it->second.v;
    bool any2 = false, any0 = false;
    for (unsigned i = 0; i < n; ++i) { if (o->st[off + i] == 2) any2 = true; if (o->st[off + i] == 0) any0 = true; }
    if (any0 && !any2) return A.undef();
    // gather pieces
    Node* cn = A.mk(K_CONCAT);
    unsigned i = 0;
    while (i < n) {
      if (o->st[off + i] == 2) {
        auto c = o->cells.find(off + i);
        if (c == o->cells.end() || i + c->second.size > n) {
          // byte slice of a wider symbolic integer cell
          auto u = o->cells.upper_bound(off + i);
          if (u != o->cells.begin()) {
            --u;
            Val w = u->second.v;
            unsigned sh = (off + i - u->first) * 8;
            if (w.is(K_INT) && i == 0 && off + n <= u->first + u->second.size) {
              Val t = sh ? A.iop(Arith::LSHR, w, Val(sh), u->second.size * 8) : w;
              return A.trunc(t, u->second.size * 8, n * 8);
            }
            if (w.is(K_CONCAT)) {
              unsigned po = u->first;
              for (size_t k = 0; k < w.n->kids.size(); ++k) {
                if (po == off + i && w.n->szs[k] == n) return w.n->kids[k];
                po += w.n->szs[k];
              }
            }
          }
          throw Unsupported{"partial read of a symbolic cell"};
        }
        cn->kids.push_back(c->second.v); cn->szs.push_back(c->second.size);
        i += c->second.size;
      } else {
        unsigned j = i;
        uint8_t st = o->st[off + i];
        while (j < n && o->st[off + j] == st && j - i < 8 && !(j > i && ((off + j) % 4 == 0) )) ++j;
        uint64_t v = 0;
        memcpy(&v, &o->bytes[off + i], j - i);
        cn->kids.push_back(st ? Val(v) : A.undef()); cn->szs.push_back(j - i);
        i = j;
      }
    }
    if (cn->kids.size() == 1) return cn->kids[0];
    return Val(cn);
  }
  void clearCells(Obj* o, uint64_t off, uint64_t n) {
    if (o->cells.empty()) return;
    auto it = o->cells.lower_bound(off);
    if (it != o->cells.begin()) {
      auto p = std::prev(it);
      if (p->first + p->second.size > off) splitCell(o, p->first);
    }
    it = o->cells.lower_bound(off);
    while (it != o->cells.end() && it->first < off + n) {
      if (it->first + it->second.size > off + n) {
        unsigned at = it->first;
        splitCell(o, at);
        it = o->cells.lower_bound(off);
        continue;
      }
      for (unsigned i = 0; i < it->second.size; ++i) o->st[it->first + i] = 0;
      it = o->cells.erase(it);
    }
  }
  void splitCell(Obj* o, unsigned at) {  // partially overwritten symbolic cell
    Cell c = o->cells[at];
    o->cells.erase(at);
    if (c.v.is(K_CONCAT)) {
      unsigned off = at;
      for (size_t k = 0; k < c.v.n->kids.size(); ++k) {
        putCell(o, off, c.v.n->kids[k], c.v.n->szs[k]);
        off += c.v.n->szs[k];
      }
      return;
    }
    if (c.v.is(K_INT) || c.v.is(K_BOOL)) {
      int64_t v = A.force(c.v, c.size * 8);
      putCell(o, at, Val((uint64_t)v), c.size);
      return;
    }
    // bytes of a real: leave as unreadable
    for (unsigned i = 0; i < c.size; ++i) o->st[at + i] = 0;
  }
  void putCell(Obj* o, uint64_t off, Val v, unsigned n) {
    if (v.conc()) {
      if (n <= 8) memcpy(&o->bytes[off], &v.c, n);
      for (unsigned i = 0; i < n; ++i) o->st[off + i] = 1;
    } else if (v.undef()) {
      for (unsigned i = 0; i < n; ++i) o->st[off + i] = 0;
    } else if (v.is(K_CONCAT)) {
      unsigned p = off;
      for (size_t k = 0; k < v.n->kids.size(); ++k) { putCell(o, p, v.n->kids[k], v.n->szs[k]); p += v.n->szs[k]; }
    } else {
      if (v.is(K_BOOL)) v = A.zext(v, 1, n * 8);
      if (v.conc()) return putCell(o, off, v, n);
      o->cells[off] = Cell{v, n};
      for (unsigned i = 0; i < n; ++i) o->st[off + i] = 2;
    }
  }
  void storeScalar(uint64_t addr, Val v, unsigned n) {
    Obj* o = access(addr, n, "write");
    if (o->kind == O_CONST) throw PathError{"write-to-const", "write to constant object"};
    uint64_t off = addr - o->base;
    clearCells(o, off, n);
    putCell(o, off, v, n);
  }
  void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Obj* so = access(s, n, "read");
    Obj* dobj = access(d, n, "write");
    if (dobj->kind == O_CONST) throw PathError{"write-to-const", "memcpy to constant object"};
    uint64_t sof = s - so->base, dof = d - dobj->base;
    std::vector<uint8_t> b(so->bytes.begin() + sof, so->bytes.begin() + sof + n), t(so->st.begin() + sof, so->st.begin() + sof + n);
    std::vector<std::pair<unsigned, Cell>> cs;
    if (!so->cells.empty()) {
      auto it = so->cells.lower_bound(sof);
      if (it != so->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.size > sof) throw Unsupported{"memcpy splits a symbolic cell"}; }
      for (; it != so->cells.end() && it->first < sof + n; ++it) {
        if (it->first + it->second.size > sof + n) throw Unsupported{"memcpy splits a symbolic cell"};
        cs.push_back({it->first - sof, it->second});
      }
    }
    clearCells(dobj, dof, n);
    memcpy(&dobj->bytes[dof], b.data(), n);
    memcpy(&dobj->st[dof], t.data(), n);
    for (auto& c : cs) dobj->cells[dof + c.first] = c.second;
  }
  void setMem(uint64_t d, uint8_t v, uint64_t n) {
    if (!n) return;
    Obj* o = access(d, n, "write");
    uint64_t off = d - o->base;
    clearCells(o, off, n);
    memset(&o->bytes[off], v, n);
    memset(&o->st[off], 1, n);
  }
  void freeObj(uint64_t a, ObjKind k, const char* fn) {
    if (!a) return;
    Obj* o = find(a);
    if (!o || a != o->base || o->kind == O_STACK || o->kind == O_GLOBAL || o->kind == O_CONST) throw PathError{"bad-free", std::string(fn) + " of a pointer that was not allocated"};
    if (!o->alive) throw PathError{"double-free", std::string(fn) + " of freed memory"};
    if (o->kind != k) throw PathError{"alloc-dealloc-mismatch", std::string(fn) + " of memory allocated differently"};
    kill(o);
  }
  void kill(Obj* o) {
    o->alive = false;
    std::vector<uint8_t>().swap(o->bytes);
    std::vector<uint8_t>().swap(o->st);
    o->cells.clear();
  }
  std::string cstr(uint64_t a) {
    std::string r;
    for (;; ++a) {
      Val v = loadScalar(a, 1);
      if (!v.conc()) throw Unsupported{"symbolic string"};
      if (!v.c) return r;
      r.push_back((char)v.c);
    }
  }
  uint64_t addrOf(Val v) { return (uint64_t)A.force(v, 64); }

  // ------------------------------------------------------------ typed access
  static bool isFP(Type* t) { return t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty(); }  // long double is carried as double
  unsigned bits(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    throw Unsupported{"type without width"};
  }
  Val loadTy(uint64_t a, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
      Node* n = A.mk(K_AGG);
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) { Val v = loadTy(a + (uint64_t)sl->getElementOffset(i), st->getElementType(i)); n->kids.push_back(v); }
      return Val(n);
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Node* n = A.mk(K_AGG);
      Type* e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      unsigned c = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      uint64_t es = DL->getTypeAllocSize(e);
      for (unsigned i = 0; i < c; ++i) { Val v = loadTy(a + i * es, e); n->kids.push_back(v); }
      return Val(n);
    }
    unsigned sz = DL->getTypeStoreSize(t);
    Val v = loadScalar(a, sz);
    if (t->isIntegerTy(1)) {
      if (v.conc()) return Val(v.c & 1);
      if (v.is(K_INT)) return A.trunc(v, 8, 1);
    }
    if (sz > 8 && v.conc()) throw Unsupported{"wide load"};
    return fixKind(v, t);
  }
  Val fixKind(Val v, Type* t) {
    if (isFP(t) && v.is(K_CONCAT)) throw Unsupported{"packed value as float"};
    if (isFP(t) && v.is(K_INT)) throw Unsupported{"integer bits as float"};
    return v;
  }
  void storeTy(uint64_t a, Val v, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(a + (uint64_t)sl->getElementOffset(i), kid(v, i), st->getElementType(i));
      return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Type* e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      unsigned c = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      uint64_t es = DL->getTypeAllocSize(e);
      for (unsigned i = 0; i < c; ++i) storeTy(a + i * es, kid(v, i), e);
      return;
    }
    unsigned sz = DL->getTypeStoreSize(t);
    if (sz > 8 && !v.is(K_CONCAT) && !v.undef()) throw Unsupported{"wide store"};
    storeScalar(a, v, sz);
  }
  Val kid(const Val& v, unsigned i) {
    if (v.undef()) return v;
    if (v.is(K_AGG)) return v.n->kids[i];
    if (v.conc() && v.c == 0) return v;  // zeroinitializer
    throw Unsupported{"aggregate element"};
  }
  Val zeroOf(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { Node* n = A.mk(K_AGG); for (auto* e : st->elements()) { Val k = zeroOf(e); n->kids.push_back(k); } return Val(n); }
    if (t->isArrayTy()) { Node* n = A.mk(K_AGG); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { Val k = zeroOf(t->getArrayElementType()); n->kids.push_back(k); } return Val(n); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { Node* n = A.mk(K_AGG); for (unsigned i = 0; i < vt->getNumElements(); ++i) { Val k = zeroOf(vt->getElementType()); n->kids.push_back(k); } return Val(n); }
    return Val((uint64_t)0);
  }

  // ------------------------------------------------------------ constants
  std::deque<Node> constNodes;
  Val constAgg(const Constant* c, unsigned n) {
    constNodes.emplace_back(K_AGG);
    Node* nd = &constNodes.back();
    for (unsigned i = 0; i < n; ++i) { Val v = constVal(c->getAggregateElement(i)); nd->kids.push_back(v); }
    return Val(nd);
  }
  Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) {
      if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        return constAgg(c, n);
      }
      constNodes.emplace_back(K_UNDEF);
      return Val(&constNodes.back());
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) { if (ci->getValue().isIntN(64)) return Val(ci->getValue().getLoBits(64).trunc(64).getZExtValue()); throw Unsupported{"wide constant"}; }
      return Val(ci->getZExtValue());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (t->isDoubleTy()) return Val(fromD(cf->getValueAPF().convertToDouble()));
      if (t->isFloatTy()) return Val(fromF(cf->getValueAPF().convertToFloat()));
      if (t->isX86_FP80Ty()) { APFloat v = cf->getValueAPF(); bool lost; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return Val(fromD(v.convertToDouble())); }
      throw Unsupported{"fp constant type"};
    }
    if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (isa<GlobalValue>(c)) return Val(gaddr.at(c));
    if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      return constAgg(c, n);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
          return Val(constVal(ce->getOperand(0)).c + (uint64_t)off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          return constVal(ce->getOperand(0));
        case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & maskW(t->getIntegerBitWidth()));
        case Instruction::ICmp: {
          uint64_t x = constVal(ce->getOperand(0)).c, y = constVal(ce->getOperand(1)).c;
          return Val(ce->getPredicate() == CmpInst::ICMP_EQ ? x == y : x != y);
        }
        default: throw Unsupported{"constant expression"};
      }
    }
    if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return Val((uint64_t)0);
    throw Unsupported{"constant kind"};
  }

  // ------------------------------------------------------------ loading
  void load(std::unique_ptr<Module> m) {
    M = std::move(m);
    DL = &M->getDataLayout();
    gbySlot.push_back(nullptr);
    for (auto& g : M->globals()) { gaddr[&g] = ((uint64_t)gbySlot.size() << SLOT) + BIAS; gbySlot.push_back(&g); }
    for (auto& f : *M) {
      uint64_t a = ((uint64_t)gbySlot.size() << SLOT) + BIAS;
      gaddr[&f] = a; faddr[a] = &f; gbySlot.push_back(nullptr);
    }
    nGlobSlots = gbySlot.size();
  }
  FnInfo* info(const Function* f) {
    auto& p = fns[f];
    if (!p) { p.reset(new FnInfo); p->F = f; }
    return p.get();
  }
  void decode(FnInfo* fi) {
    if (fi->decoded) return;
    fi->decoded = true;
    const Function* F = fi->F;
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& a : F->args()) slot[&a] = n++;
    for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    fi->nslots = n;
    unsigned bi = 0;
    for (auto& bb : *F) fi->bbIdx[&bb] = bi++;
    for (auto& bb : *F) {
      fi->blocks.emplace_back();
      for (auto& I : bb) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        DI d;
        d.I = &I; d.opc = I.getOpcode();
        if (!I.getType()->isVoidTy()) d.dst = slot[&I];
        for (auto& u : I.operands()) {
          Op o;
          const Value* v = u.get();
          auto it = slot.find(v);
          if (it != slot.end()) o.slot = it->second;
          else if (auto* c = dyn_cast<Constant>(v)) { try { o.k = constVal(c); } catch (Unsupported&) { o.slot = -2; } }
          d.ops.push_back(o);
        }
        fi->blocks.back().push_back(std::move(d));
      }
    }
    if (auto* sp = F->getSubprogram()) {
      std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str();
      fi->inRepo = fn.find("ndt_gslam") != std::string::npos;
    }
  }
  Val get(Frame& f, const Op& o) {
    if (o.slot >= 0) return f.r[o.slot];
    if (o.slot == -2) throw Unsupported{"constant operand"};
    return o.k;
  }
  std::string where() {
    std::string r;
    int n = 0;
    for (size_t i = stack.size(); i-- > 0 && n < 12;) {
      Frame& f = stack[i];
      if (f.bb >= f.f->blocks.size() || f.ip >= f.f->blocks[f.bb].size()) continue;
      auto& dl = f.f->blocks[f.bb][f.ip].I->getDebugLoc();
      if (dl) { r += (n ? " < " : "") + dl->getFilename().str().substr(dl->getFilename().rfind('/') + 1) + ":" + std::to_string(dl.getLine()); ++n; }
    }
    return r;
  }
  void run(const Function* f, std::vector<Val> args);
  void step();
  void call(const CallBase& cb, const DI& d);
  void enter(FnInfo* fi, std::vector<Val>& args, const CallBase* site, int dst);
  void leave(Val v);
  void unwind();
  void jump(Frame& f, const BasicBlock* to);
  bool tiMatches(uint64_t thrown, uint64_t want);
  bool intrinsic(const CallBase& cb, const Function* F, const DI& d);
  void registerBuiltins();
  const Builtin* lookupBuiltin(FnInfo* fi);
  // harness API
  bool refineModel(const std::vector<z3::expr>& extra, std::unique_ptr<z3::model>& m);
  void guess(const std::string& label);
  std::map<std::string, unsigned> guessN;
  Sat confirm(const std::vector<z3::expr>& extra, unsigned to, std::unique_ptr<z3::model>& m);
  unsigned refineN = 0, witUnfaithful = 0, witTries = 0;
  uint64_t rng = 1;
  void recordViolation(const std::string& label, const std::string& kind, const std::string& msg, z3::model* m);
  std::vector<std::pair<std::string, std::string>> modelInputs(z3::model& m);
  void check(Val c, const std::string& label);
  void checkEq(Val a, Val b, double tol, const std::string& label);
  void explore(const Function* f);
  void finishPath();
  double evalReal(z3::model& m, Val v, unsigned w);
};
}  // namespace sx
