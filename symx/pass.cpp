// LLVM pass: shadow-expression instrumentation for concolic path
// enumeration.  Every SSA value of a supported scalar type gets a shadow
// "struct Expr *" (null = concrete).  The concrete computation is left as it
// is, so an instrumented program behaves exactly like the original one.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

// Functions whose calls are redirected to symx_libc_<name>
static const std::set<std::string> kRedirect = {
  "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc",
  "memcmp", "bcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp",
  "strcasecmp", "strncasecmp", "strchr", "strrchr", "strcpy", "strncpy",
  "stpcpy", "strcat", "strncat", "strdup", "strndup", "strstr", "qsort",
  "bsearch", "mmap", "munmap", "memcpy", "memmove", "memset", "strpbrk",
  "strcspn", "strspn", "strtok", "toupper", "tolower", "abort",
  "vsnprintf", "snprintf", "sprintf", "vsprintf", "read", "fread", "fgets",
  "fwrite", "write", "__assert_fail", "mempcpy", "ffs", "isdigit",
  "strtol", "strtoul", "strtoll", "strtoull", "atoi", "atol",
  "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll",
  "__isoc23_strtoull", "exit", "_exit", "pow", "memrchr", "rawmemchr",
  "strchrnul", "vasprintf", "asprintf", "fmod", "exp2", "log", "exp", "sin",
  "cos", "sqrt", "fputc", "fputs", "putc", "fgetc", "getc", "fprintf",
  "vfprintf", "__memcpy_chk", "__memset_chk", "__memmove_chk",
};

struct Inst {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  Type *I1, *I8, *I32, *I64, *Ptr, *Void;
  Constant *Null;
  FunctionCallee fBin, fCmp, fFBin, fFCmp, fFUn, fCast, fSelect, fLoad, fStore,
    fMemcpy, fMemset, fBranch, fConc, fIntr, fGep, fClear, fUninst, fVaStart,
    fOvf, fConcMem, fMemcpyDyn, fFIntr, fBitExt, fBitCat;
  GlobalVariable *gArgs, *gRet, *gTag, *gNArg;
  static const unsigned MAXARGS = 64;

  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    Ptr = PointerType::get(C, 0); Void = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
    auto F = [&](const char *n, Type *r, ArrayRef<Type*> a) {
      FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
      return f;
    };
    fBin = F("symx_bin", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    fCmp = F("symx_cmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    fFBin = F("symx_fbin", Ptr, {I32, I32, Ptr, I64, Ptr, I64, I64});
    fFCmp = F("symx_fcmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64, I32});
    fFUn = F("symx_fun", Ptr, {I32, I32, Ptr, I64, I64});
    fFIntr = F("symx_fintr", Ptr, {Ptr, I32, Ptr, I64, Ptr, I64, I64});
    fCast = F("symx_cast", Ptr, {I32, I32, I32, Ptr, I64});
    fSelect = F("symx_select", Ptr, {I32, Ptr, I64, Ptr, I64, Ptr, I64});
    fLoad = F("symx_load", Ptr, {Ptr, I32, I32, Ptr});
    fStore = F("symx_store", Void, {Ptr, I32, Ptr, Ptr, I64});
    fConcMem = F("symx_conc_mem", Void, {Ptr, I64, Ptr});
    fMemcpy = F("symx_memcpy", Void, {Ptr, Ptr, I64, Ptr, Ptr, Ptr});
    fMemset = F("symx_memset", Void, {Ptr, I64, Ptr, Ptr, Ptr});
    fBranch = F("symx_branch", Void, {Ptr, I64, Ptr, I32});
    fConc = F("symx_concretize", Void, {Ptr, I32});
    fIntr = F("symx_intr", Ptr, {I32, I32, Ptr, I64, Ptr, I64, Ptr, I64});
    fOvf = F("symx_ovf", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    fGep = F("symx_gep", Ptr, {Ptr, I64, Ptr, I64, I32, I64});
    fClear = F("symx_clear", Void, {Ptr, I64});
    fUninst = F("symx_uninst", Void, {Ptr, I32});
    fVaStart = F("symx_va_start", Void, {Ptr});
    fBitExt = F("symx_extract", Ptr, {I32, I32, Ptr});
    fBitCat = F("symx_concat", Ptr, {I32, Ptr, I64, Ptr, I64});
    gArgs = tls("symx_args", ArrayType::get(Ptr, MAXARGS));
    gRet = tls("symx_ret", ArrayType::get(Ptr, 16));
    gTag = tls("symx_tag", Ptr);
    gNArg = tls("symx_narg", I32);
  }

  GlobalVariable *tls(const char *n, Type *t) {
    auto *g = M.getNamedGlobal(n);
    if (!g)
      g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr,
                             n, nullptr, GlobalValue::InitialExecTLSModel);
    return g;
  }

  static bool isScalar(Type *T) {
    if (auto *I = dyn_cast<IntegerType>(T)) return I->getBitWidth() <= 64;
    return T->isPointerTy() || T->isFloatTy() || T->isDoubleTy();
  }
  bool isVec(Type *T) {
    auto *V = dyn_cast<FixedVectorType>(T);
    return V && isScalar(V->getElementType()) && V->getNumElements() <= 64;
  }
  Type *shTy(Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      SmallVector<Type*, 8> e;
      for (Type *t : S->elements()) e.push_back(shTy(t));
      return StructType::get(C, e);
    }
    if (auto *A = dyn_cast<ArrayType>(T))
      return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
    if (isVec(T))
      return ArrayType::get(Ptr, cast<FixedVectorType>(T)->getNumElements());
    return Ptr;
  }
  unsigned width(Type *T) {
    if (T->isPointerTy()) return 64;
    return T->getPrimitiveSizeInBits();
  }
};

struct FuncInst {
  Inst &S;
  Function &F;
  std::map<Value *, Value *> sh;
  std::set<Value *> may;
  std::vector<std::pair<PHINode *, PHINode *>> phis;
  Constant *fname;

  FuncInst(Inst &S, Function &F) : S(S), F(F) {}

  Value *toU64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, S.I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, S.I64);
    if (T->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(V, S.I32), S.I64);
    if (T->isIntegerTy()) return B.CreateZExtOrTrunc(V, S.I64);
    return ConstantInt::get(S.I64, 0);
  }
  Value *i32(unsigned v) { return ConstantInt::get(S.I32, v); }
  Value *i64(uint64_t v) { return ConstantInt::get(S.I64, v); }

  bool maySym(Value *V) { return may.count(V) != 0; }

  Value *get(Value *V) {
    if (maySym(V)) {
      auto it = sh.find(V);
      if (it != sh.end()) return it->second;
      errs() << "symx: no shadow for " << *V << " in " << F.getName() << "\n";
      report_fatal_error("symx");
    }
    return Constant::getNullValue(S.shTy(V->getType()));
  }

  // Which instructions can yield a symbolic result from memory or calls
  static bool isSource(Instruction &I) {
    if (isa<LoadInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I))
      return true;
    if (auto *CI = dyn_cast<CallBase>(&I)) {
      if (isa<IntrinsicInst>(I)) return false;
      return !CI->getType()->isVoidTy() && !CI->isInlineAsm();
    }
    return false;
  }

  void analyse() {
    for (auto &A : F.args()) may.insert(&A);
    bool changed = true;
    while (changed) {
      changed = false;
      for (auto &BB : F) for (auto &I : BB) {
        if (I.getType()->isVoidTy() || may.count(&I)) continue;
        bool m = isSource(I);
        if (!m && !isa<AllocaInst>(I) && !isa<LandingPadInst>(I)) {
          if (auto *CI = dyn_cast<CallBase>(&I)) {
            if (CI->isInlineAsm()) m = false;
            else for (Value *op : CI->args()) m |= maySym(op);
          } else
            for (Value *op : I.operands()) m |= maySym(op);
        }
        if (m) { may.insert(&I); changed = true; }
      }
    }
  }

  // Flatten a (shadow, type) pair into scalar shadows
  void leaves(IRBuilder<> &B, Value *s, Type *sty, SmallVectorImpl<Value *> &out) {
    if (auto *ST = dyn_cast<StructType>(sty)) {
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        leaves(B, B.CreateExtractValue(s, i), ST->getElementType(i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(sty)) {
      for (unsigned i = 0; i < AT->getNumElements(); i++)
        leaves(B, B.CreateExtractValue(s, i), AT->getElementType(), out);
    } else
      out.push_back(s);
  }
  unsigned countLeaves(Type *sty) {
    if (auto *ST = dyn_cast<StructType>(sty)) {
      unsigned n = 0;
      for (Type *t : ST->elements()) n += countLeaves(t);
      return n;
    }
    if (auto *AT = dyn_cast<ArrayType>(sty))
      return AT->getNumElements() * countLeaves(AT->getElementType());
    return 1;
  }
  // Rebuild a shadow from an array of slots
  Value *rebuild(IRBuilder<> &B, Type *sty, function_ref<Value *()> next) {
    if (auto *ST = dyn_cast<StructType>(sty)) {
      Value *v = Constant::getNullValue(sty);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        v = B.CreateInsertValue(v, rebuild(B, ST->getElementType(i), next), i);
      return v;
    }
    if (auto *AT = dyn_cast<ArrayType>(sty)) {
      Value *v = Constant::getNullValue(sty);
      for (unsigned i = 0; i < AT->getNumElements(); i++)
        v = B.CreateInsertValue(v, rebuild(B, AT->getElementType(), next), i);
      return v;
    }
    return next();
  }

  Value *slot(IRBuilder<> &B, GlobalVariable *g, unsigned i) {
    return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i);
  }

  void concretize(IRBuilder<> &B, Value *V, unsigned why) {
    if (!maySym(V)) return;
    SmallVector<Value *, 8> ls;
    Value *s = get(V);
    leaves(B, s, s->getType(), ls);
    for (Value *l : ls)
      if (!isa<ConstantPointerNull>(l))
        B.CreateCall(S.fConc, {l, i32(why)});
  }

  // Byte offsets of the scalar leaves of an in-memory type.  Returns false
  // when some leaf is not a supported scalar.
  bool memLeaves(Type *T, uint64_t off,
                 SmallVectorImpl<std::pair<uint64_t, Type *>> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *L = S.DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        if (!memLeaves(ST->getElementType(i), off + L->getElementOffset(i), out))
          return false;
      return true;
    }
    if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t sz = S.DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); i++)
        if (!memLeaves(AT->getElementType(), off + i * sz, out)) return false;
      return true;
    }
    if (S.isVec(T)) {
      Type *E = cast<FixedVectorType>(T)->getElementType();
      if (S.width(E) % 8 != 0) return false;
      uint64_t sz = S.width(E) / 8;
      for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++)
        out.push_back({off + i * sz, E});
      return true;
    }
    if (!Inst::isScalar(T)) return false;
    out.push_back({off, T});
    return true;
  }

  Value *loadShadow(IRBuilder<> &B, Value *addr, Type *T) {
    Value *sa = maySym(addr) ? get(addr) : S.Null;
    SmallVector<std::pair<uint64_t, Type *>, 8> ml;
    if (!memLeaves(T, 0, ml)) {
      B.CreateCall(S.fConcMem, {addr, i64(S.DL.getTypeStoreSize(T)), sa});
      return Constant::getNullValue(S.shTy(T));
    }
    unsigned k = 0;
    return rebuild(B, S.shTy(T), [&]() -> Value * {
      auto [off, LT] = ml[k++];
      Value *p = off ? B.CreateConstGEP1_64(S.I8, addr, off) : addr;
      Value *a = sa;
      if (off && sa != S.Null)
        a = B.CreateCall(S.fGep, {sa, B.CreatePtrToInt(addr, S.I64), S.Null,
                                  i64(off), i32(64), i64(1)});
      return B.CreateCall(S.fLoad, {p, i32(S.DL.getTypeStoreSize(LT)),
                                    i32(S.width(LT)), a});
    });
  }

  void storeShadow(IRBuilder<> &B, Value *addr, Value *val) {
    Type *T = val->getType();
    Value *sa = maySym(addr) ? get(addr) : S.Null;
    SmallVector<std::pair<uint64_t, Type *>, 8> ml;
    if (!maySym(val) || !memLeaves(T, 0, ml)) {
      if (maySym(val)) concretize(B, val, 1);
      B.CreateCall(S.fStore, {addr, i32(S.DL.getTypeStoreSize(T)), sa, S.Null,
                              i64(0)});
      return;
    }
    SmallVector<Value *, 8> ls;
    Value *s = get(val);
    leaves(B, s, s->getType(), ls);
    for (unsigned k = 0; k < ls.size(); k++) {
      auto [off, LT] = ml[k];
      Value *p = off ? B.CreateConstGEP1_64(S.I8, addr, off) : addr;
      Value *a = sa;
      if (off && sa != S.Null)
        a = B.CreateCall(S.fGep, {sa, B.CreatePtrToInt(addr, S.I64), S.Null,
                                  i64(off), i32(64), i64(1)});
      B.CreateCall(S.fStore, {p, i32(S.DL.getTypeStoreSize(LT)), a, ls[k],
                              i64(0)});
    }
  }

  // vector/scalar <-> wide bitcasts through element concat/extract
  Value *bitcastShadow(IRBuilder<> &B, Value *V, Type *DT) {
    Type *ST = V->getType();
    if (Inst::isScalar(ST) && Inst::isScalar(DT)) return get(V);
    if (S.isVec(ST) && Inst::isScalar(DT)) {
      unsigned n = cast<FixedVectorType>(ST)->getNumElements();
      unsigned w = S.width(cast<FixedVectorType>(ST)->getElementType());
      Value *acc = nullptr, *accv = nullptr;
      for (unsigned i = 0; i < n; i++) {
        Value *e = B.CreateExtractValue(get(V), i);
        Value *ev = toU64(B, B.CreateExtractElement(V, i));
        if (!acc) { acc = e; accv = ev; }
        else {
          // concat(hi = e (w), lo = acc (i*w))
          acc = B.CreateCall(S.fBitCat, {i32(w << 8 | (i * w)), e, ev, acc, accv});
          accv = B.CreateOr(accv, B.CreateShl(ev, i * w));
        }
      }
      return acc;
    }
    if (Inst::isScalar(ST) && S.isVec(DT)) {
      unsigned n = cast<FixedVectorType>(DT)->getNumElements();
      unsigned w = S.width(cast<FixedVectorType>(DT)->getElementType());
      Value *r = Constant::getNullValue(S.shTy(DT));
      for (unsigned i = 0; i < n; i++)
        r = B.CreateInsertValue(r, B.CreateCall(S.fBitExt,
              {i32(i * w), i32(w), get(V)}), i);
      return r;
    }
    if (S.isVec(ST) && S.isVec(DT)) {
      unsigned n1 = cast<FixedVectorType>(ST)->getNumElements();
      unsigned w1 = S.width(cast<FixedVectorType>(ST)->getElementType());
      unsigned n2 = cast<FixedVectorType>(DT)->getNumElements();
      unsigned w2 = S.width(cast<FixedVectorType>(DT)->getElementType());
      Value *r = Constant::getNullValue(S.shTy(DT));
      if (w1 >= w2) {
        for (unsigned i = 0; i < n2; i++) {
          Value *e = B.CreateExtractValue(get(V), i * w2 / w1);
          r = B.CreateInsertValue(r, w1 == w2 ? e : B.CreateCall(S.fBitExt,
                {i32((i * w2) % w1), i32(w2), e}), i);
        }
      } else {
        unsigned k = w2 / w1;
        for (unsigned i = 0; i < n2; i++) {
          Value *acc = nullptr, *accv = nullptr;
          for (unsigned j = 0; j < k; j++) {
            Value *e = B.CreateExtractValue(get(V), i * k + j);
            Value *ev = toU64(B, B.CreateExtractElement(V, i * k + j));
            if (!acc) { acc = e; accv = ev; }
            else {
              acc = B.CreateCall(S.fBitCat, {i32(w1 << 8 | (j * w1)), e, ev, acc, accv});
              accv = B.CreateOr(accv, B.CreateShl(ev, j * w1));
            }
          }
          r = B.CreateInsertValue(r, acc, i);
        }
      }
      return r;
    }
    concretize(B, V, 2);
    return Constant::getNullValue(S.shTy(DT));
  }

  Value *nullFor(Value *V) { return Constant::getNullValue(S.shTy(V->getType())); }

  void fallback(IRBuilder<> &B, Instruction &I, unsigned why) {
    for (Value *op : I.operands())
      if (maySym(op)) concretize(B, op, why);
    if (!I.getType()->isVoidTy()) sh[&I] = nullFor(&I);
  }

  static int binOp(unsigned opc) {
    switch (opc) {
    case Instruction::Add: return 0; case Instruction::Sub: return 1;
    case Instruction::Mul: return 2; case Instruction::UDiv: return 3;
    case Instruction::SDiv: return 4; case Instruction::URem: return 5;
    case Instruction::SRem: return 6; case Instruction::And: return 7;
    case Instruction::Or: return 8; case Instruction::Xor: return 9;
    case Instruction::Shl: return 10; case Instruction::LShr: return 11;
    case Instruction::AShr: return 12;
    case Instruction::FAdd: return 0; case Instruction::FSub: return 1;
    case Instruction::FMul: return 2; case Instruction::FDiv: return 3;
    case Instruction::FRem: return 4;
    }
    return -1;
  }

  void intrinsic(IntrinsicInst *II) {
    IRBuilder<> B(II), A(II->getNextNode() ? II->getNextNode() : II);
    Type *T = II->getType();
    auto op = [&](unsigned i) { return II->getArgOperand(i); };
    auto intr = [&](unsigned id, unsigned n) {
      Value *a[8] = {i32(id), i32(S.width(op(0)->getType())), S.Null, i64(0),
                     S.Null, i64(0), S.Null, i64(0)};
      bool any = false;
      for (unsigned i = 0; i < n; i++) {
        a[2 + 2 * i] = get(op(i)); a[3 + 2 * i] = toU64(B, op(i));
        any |= maySym(op(i));
      }
      if (any) sh[II] = B.CreateCall(S.fIntr, a);
    };
    if (II->getIntrinsicID() == Intrinsic::lifetime_start) {
      auto *sz = dyn_cast<ConstantInt>(op(0));
      if (sz && sz->getSExtValue() > 0)
        A.CreateCall(S.fClear, {op(1), i64(sz->getZExtValue())});
      return;
    }
    if (II->isAssumeLikeIntrinsic()) {
      if (maySym(II)) sh[II] = nullFor(II);
      return;
    }
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      B.CreateCall(S.fMemcpy, {op(0), op(1), B.CreateZExtOrTrunc(op(2), S.I64),
                               get(op(0)), get(op(1)), get(op(2))});
      return;
    case Intrinsic::memset: case Intrinsic::memset_inline:
      B.CreateCall(S.fMemset, {op(0), B.CreateZExtOrTrunc(op(2), S.I64),
                               get(op(0)), get(op(1)), get(op(2))});
      return;
    case Intrinsic::vastart:
      A.CreateCall(S.fVaStart, {op(0)});
      return;
    case Intrinsic::vacopy: {
      Value *sz = i64(24);
      B.CreateCall(S.fMemcpy, {op(0), op(1), sz, S.Null, S.Null, S.Null});
      return;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability:
    case Intrinsic::ssa_copy: case Intrinsic::ptrmask:
      if (II->getIntrinsicID() == Intrinsic::ptrmask) break;
      if (maySym(II)) sh[II] = get(op(0));
      return;
    case Intrinsic::is_constant: case Intrinsic::objectsize:
    case Intrinsic::threadlocal_address: case Intrinsic::stacksave:
    case Intrinsic::frameaddress: case Intrinsic::returnaddress:
      if (maySym(II)) sh[II] = nullFor(II);
      return;
    default: break;
    }
    bool any = false;
    for (Value *v : II->args()) any |= maySym(v);
    if (!any) return;
    if (Inst::isScalar(T) || T->isStructTy()) {
      bool isc = true;
      for (Value *v : II->args()) isc &= Inst::isScalar(v->getType());
      if (isc) switch (II->getIntrinsicID()) {
      case Intrinsic::ctpop: intr(0, 1); return;
      case Intrinsic::ctlz: intr(1, 1); return;
      case Intrinsic::cttz: intr(2, 1); return;
      case Intrinsic::bswap: intr(3, 1); return;
      case Intrinsic::umin: intr(4, 2); return;
      case Intrinsic::umax: intr(5, 2); return;
      case Intrinsic::smin: intr(6, 2); return;
      case Intrinsic::smax: intr(7, 2); return;
      case Intrinsic::abs: intr(8, 1); return;
      case Intrinsic::fshl: intr(9, 3); return;
      case Intrinsic::fshr: intr(10, 3); return;
      case Intrinsic::uadd_sat: intr(11, 2); return;
      case Intrinsic::usub_sat: intr(12, 2); return;
      case Intrinsic::bitreverse: intr(13, 1); return;
      case Intrinsic::sadd_sat: intr(14, 2); return;
      case Intrinsic::ssub_sat: intr(15, 2); return;
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow:
      case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned o = 0, b = 0;
        switch (II->getIntrinsicID()) {
        case Intrinsic::sadd_with_overflow: o = 0; b = 0; break;
        case Intrinsic::uadd_with_overflow: o = 1; b = 0; break;
        case Intrinsic::ssub_with_overflow: o = 2; b = 1; break;
        case Intrinsic::usub_with_overflow: o = 3; b = 1; break;
        case Intrinsic::smul_with_overflow: o = 4; b = 2; break;
        default: o = 5; b = 2; break;
        }
        Value *w = i32(S.width(op(0)->getType()));
        Value *r = B.CreateCall(S.fBin, {i32(b), w, get(op(0)), toU64(B, op(0)),
                                         get(op(1)), toU64(B, op(1))});
        Value *v = B.CreateCall(S.fOvf, {i32(o), w, get(op(0)), toU64(B, op(0)),
                                         get(op(1)), toU64(B, op(1))});
        Value *s = nullFor(II);
        s = B.CreateInsertValue(s, r, 0);
        s = B.CreateInsertValue(s, v, 1);
        sh[II] = s;
        return;
      }
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor:
      case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint:
      case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
      case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::exp2:
      case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10:
      case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::copysign:
      case Intrinsic::minnum: case Intrinsic::maxnum: {
        Value *nm = A.CreateGlobalStringPtr(
            Intrinsic::getBaseName(II->getIntrinsicID()).substr(5), "symx.i");
        Value *b = II->arg_size() > 1 ? op(1) : nullptr;
        sh[II] = A.CreateCall(S.fFIntr, {nm, i32(S.width(T)), get(op(0)),
              toU64(A, op(0)), b ? get(b) : S.Null,
              b ? toU64(A, b) : (Value *)i64(0), toU64(A, II)});
        return;
      }
      default: break;
      }
    }
    // elementwise vector intrinsics with a small lane count
    switch (II->getIntrinsicID()) {
    case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
      unsigned n = cast<FixedVectorType>(op(0)->getType())->getNumElements();
      Value *acc = nullptr, *accv = nullptr;
      for (unsigned i = 0; i < n; i++) {
        Value *ev = toU64(B, B.CreateExtractElement(op(0), i));
        Value *e = B.CreateCall(S.fBitExt, {i32(7), i32(1),
              B.CreateExtractValue(get(op(0)), i)});
        ev = B.CreateLShr(ev, 7);
        if (!acc) { acc = e; accv = ev; }
        else {
          acc = B.CreateCall(S.fBitCat, {i32(1 << 8 | i), e, ev, acc, accv});
          accv = B.CreateOr(accv, B.CreateShl(ev, i));
        }
      }
      if (n < 32)
        acc = B.CreateCall(S.fCast, {i32(1), i32(n), i32(32), acc, i64(0)});
      sh[II] = acc;
      return;
    }
    case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_avx_ptestz_256:
    case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_avx_ptestc_256: {
      bool tc = II->getIntrinsicID() == Intrinsic::x86_sse41_ptestc ||
        II->getIntrinsicID() == Intrinsic::x86_avx_ptestc_256;
      unsigned n = cast<FixedVectorType>(op(0)->getType())->getNumElements();
      Value *acc = S.Null, *accv = i64(0);
      for (unsigned i = 0; i < n; i++) {
        Value *av = toU64(B, B.CreateExtractElement(op(0), i));
        Value *bv = toU64(B, B.CreateExtractElement(op(1), i));
        Value *a = B.CreateExtractValue(get(op(0)), i);
        Value *b = B.CreateExtractValue(get(op(1)), i);
        if (tc) {
          a = B.CreateCall(S.fBin, {i32(9), i32(64), a, av, S.Null, i64(~0ull)});
          av = B.CreateNot(av);
        }
        Value *x = B.CreateCall(S.fBin, {i32(7), i32(64), a, av, b, bv});
        Value *xv = B.CreateAnd(av, bv);
        acc = B.CreateCall(S.fBin, {i32(8), i32(64), acc, accv, x, xv});
        accv = B.CreateOr(accv, xv);
      }
      Value *c = B.CreateCall(S.fCmp, {i32(32), i32(64), acc, accv, S.Null, i64(0)});
      sh[II] = B.CreateCall(S.fCast, {i32(1), i32(1), i32(32), c, i64(0)});
      return;
    }
    case Intrinsic::x86_ssse3_pshuf_b_128: {
      // r[i] = idx[i] & 0x80 ? 0 : a[idx[i] & 15]
      Value *r = nullFor(II);
      for (unsigned i = 0; i < 16; i++) {
        Value *ix = B.CreateExtractValue(get(op(1)), i);
        Value *ixv = toU64(B, B.CreateExtractElement(op(1), i));
        Value *lo = B.CreateCall(S.fBin, {i32(7), i32(8), ix, ixv, S.Null, i64(15)});
        Value *lov = B.CreateAnd(ixv, 15);
        Value *acc = B.CreateExtractValue(get(op(0)), 0);
        Value *accv = toU64(B, B.CreateExtractElement(op(0), (uint64_t)0));
        for (unsigned j = 1; j < 16; j++) {
          Value *c = B.CreateCall(S.fCmp, {i32(32), i32(8), lo, lov, S.Null, i64(j)});
          Value *cv = B.CreateICmpEQ(lov, i64(j));
          Value *jv = toU64(B, B.CreateExtractElement(op(0), j));
          acc = B.CreateCall(S.fSelect, {i32(8), c, B.CreateZExt(cv, S.I64),
                B.CreateExtractValue(get(op(0)), j), jv, acc, accv});
          accv = B.CreateSelect(cv, jv, accv);
        }
        Value *hs = B.CreateCall(S.fBin, {i32(7), i32(8), ix, ixv, S.Null, i64(128)});
        Value *c = B.CreateCall(S.fCmp, {i32(33), i32(8), hs, B.CreateAnd(ixv, 128),
              S.Null, i64(0)});
        Value *cv = B.CreateICmpNE(B.CreateAnd(ixv, 128), i64(0));
        r = B.CreateInsertValue(r, B.CreateCall(S.fSelect, {i32(8), c,
              B.CreateZExt(cv, S.I64), S.Null, i64(0), acc, accv}), i);
      }
      sh[II] = r;
      return;
    }
    default: break;
    }
    fallback(B, *II, 100 + II->getIntrinsicID());
  }

  void call(CallBase *CI) {
    if (auto *II = dyn_cast<IntrinsicInst>(CI)) { intrinsic(II); return; }
    IRBuilder<> B(CI);
    if (CI->isInlineAsm()) {
      for (Value *a : CI->args()) concretize(B, a, 3);
      return;
    }
    if (CI->isMustTailCall()) report_fatal_error("musttail");
    Function *Callee = CI->getCalledFunction();
    FunctionType *FT = CI->getFunctionType();
    if (!Callee) concretize(B, CI->getCalledOperand(), 4);

    bool anySym = false;
    for (unsigned i = 0; i < CI->arg_size(); i++) {
      Value *a = CI->getArgOperand(i);
      if (maySym(a) || CI->isByValArgument(i)) anySym = true;
    }
    if (FT->isVarArg() && Callee && !Callee->isDeclaration()) anySym = true;
    // setjmp must not be separated from its use; nothing to do for it
    unsigned nslot = 0;
    if (anySym) {
      for (unsigned i = 0; i < CI->arg_size(); i++) {
        Value *a = CI->getArgOperand(i);
        if (i >= FT->getNumParams()) {
          concretize(B, a, 5);
          continue;
        }
        if (CI->isByValArgument(i)) {
          if (nslot < Inst::MAXARGS)
            B.CreateStore(a, slot(B, S.gArgs, nslot));
          nslot++;
          continue;
        }
        SmallVector<Value *, 8> ls;
        Value *s = get(a);
        leaves(B, s, s->getType(), ls);
        for (Value *l : ls) {
          if (nslot < Inst::MAXARGS) B.CreateStore(l, slot(B, S.gArgs, nslot));
          else B.CreateCall(S.fConc, {l, i32(6)});
          nslot++;
        }
      }
      B.CreateStore(CI->getCalledOperand(), S.gTag);
    } else
      B.CreateStore(S.Null, S.gTag);
    bool hasRet = !CI->getType()->isVoidTy();
    unsigned nret = hasRet ? countLeaves(S.shTy(CI->getType())) : 0;
    if (hasRet && nret <= 16)
      for (unsigned i = 0; i < nret; i++)
        B.CreateStore(S.Null, slot(B, S.gRet, i));

    Instruction *N = nullptr;
    if (isa<CallInst>(CI)) N = CI->getNextNode();
    if (N == nullptr || isa<UnreachableInst>(N)) {
      if (hasRet) sh[CI] = nullFor(CI);
      return;
    }
    IRBuilder<> A(N);
    if (anySym && (!Callee || Callee->isDeclaration()))
      A.CreateCall(S.fUninst, {CI->getCalledOperand(), i32(nslot)});
    if (hasRet) {
      if (nret > 16) { sh[CI] = nullFor(CI); return; }
      unsigned k = 0;
      sh[CI] = rebuild(A, S.shTy(CI->getType()), [&]() -> Value * {
        return A.CreateLoad(S.Ptr, slot(A, S.gRet, k++));
      });
    }
  }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    Instruction *N = I.getNextNode();
    Type *T = I.getType();
    if (auto *PN = dyn_cast<PHINode>(&I)) {
      if (!maySym(PN)) return;
      auto *SP = B.CreatePHI(S.shTy(T), PN->getNumIncomingValues());
      sh[PN] = SP;
      phis.push_back({PN, SP});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { call(CB); return; }
    if (auto *LI = dyn_cast<LoadInst>(&I)) {
      // a symbolic address may be decided (and the native load faults after)
      sh[LI] = loadShadow(B, LI->getPointerOperand(), T);
      return;
    }
    if (auto *SI = dyn_cast<StoreInst>(&I)) {
      storeShadow(B, SI->getPointerOperand(), SI->getValueOperand());
      return;
    }
    if (auto *AI = dyn_cast<AllocaInst>(&I)) {
      if (AI->isArrayAllocation()) concretize(B, AI->getArraySize(), 7);
      IRBuilder<> A(N);
      Value *n = A.CreateMul(A.CreateZExtOrTrunc(AI->getArraySize(), S.I64),
                             i64(S.DL.getTypeAllocSize(AI->getAllocatedType())));
      // Put after the last alloca of the block to keep allocas grouped
      A.CreateCall(S.fClear, {AI, n});
      return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(&I)) {
      Value *V = RI->getReturnValue();
      if (!V) return;
      SmallVector<Value *, 8> ls;
      Value *s = get(V);
      leaves(B, s, s->getType(), ls);
      if (ls.size() > 16) { concretize(B, V, 8); return; }
      for (unsigned i = 0; i < ls.size(); i++)
        B.CreateStore(ls[i], slot(B, S.gRet, i));
      return;
    }
    if (auto *BI = dyn_cast<BranchInst>(&I)) {
      if (!BI->isConditional() || !maySym(BI->getCondition())) return;
      unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
      if (!line)
        if (auto *CI = dyn_cast<Instruction>(BI->getCondition()))
          if (CI->getDebugLoc()) line = CI->getDebugLoc().getLine();
      B.CreateCall(S.fBranch, {get(BI->getCondition()),
                               toU64(B, BI->getCondition()), fname, i32(line)});
      return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(&I)) {
      concretize(B, SW->getCondition(), 9);
      return;
    }
    if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) {
      Value *p = RMW->getPointerOperand();
      concretize(B, p, 10);
      Value *old = loadShadow(B, p, T);
      IRBuilder<> A(N);
      sh[&I] = old;
      int op = -1;
      switch (RMW->getOperation()) {
      case AtomicRMWInst::Add: op = 0; break; case AtomicRMWInst::Sub: op = 1; break;
      case AtomicRMWInst::And: op = 7; break; case AtomicRMWInst::Or: op = 8; break;
      case AtomicRMWInst::Xor: op = 9; break;
      default: break;
      }
      Value *v = RMW->getValOperand();
      Value *ns = S.Null;
      if (RMW->getOperation() == AtomicRMWInst::Xchg) ns = get(v);
      else if (op >= 0 && T->isIntegerTy())
        ns = A.CreateCall(S.fBin, {i32(op), i32(S.width(T)), old, toU64(A, &I),
                                   get(v), toU64(A, v)});
      else { concretize(B, v, 11); A.CreateCall(S.fConc, {old, i32(11)}); }
      A.CreateCall(S.fStore, {p, i32(S.DL.getTypeStoreSize(T)), S.Null, ns, i64(0)});
      return;
    }
    if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
      Value *p = CX->getPointerOperand();
      concretize(B, p, 12);
      Value *exp = CX->getCompareOperand();
      if (!Inst::isScalar(exp->getType())) { fallback(B, I, 13); return; }
      Value *old = loadShadow(B, p, exp->getType());
      IRBuilder<> A(N);
      Value *oldv = A.CreateExtractValue(&I, 0);
      Value *ok = A.CreateExtractValue(&I, 1);
      Value *c = A.CreateCall(S.fCmp, {i32(CmpInst::ICMP_EQ),
            i32(S.width(exp->getType())), old, toU64(A, oldv), get(exp), toU64(A, exp)});
      A.CreateCall(S.fBranch, {c, toU64(A, ok), fname, i32(0)});
      // on success store the new shadow, otherwise keep the old one
      Value *ns = A.CreateSelect(ok, get(CX->getNewValOperand()), old);
      A.CreateCall(S.fStore, {p, i32(S.DL.getTypeStoreSize(exp->getType())),
                              S.Null, ns, i64(0)});
      Value *s = nullFor(&I);
      sh[&I] = A.CreateInsertValue(s, old, 0);
      return;
    }
    if (isa<IndirectBrInst>(I)) { fallback(B, I, 14); return; }
    if (I.isTerminator() || isa<FenceInst>(I)) return;
    if (!maySym(&I)) return;

    auto A = [&]() { return IRBuilder<>(N); };
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      int op = binOp(BO->getOpcode());
      if (Inst::isScalar(T) && T->isIntegerTy())
        sh[&I] = B.CreateCall(S.fBin, {i32(op), i32(S.width(T)), get(a), toU64(B, a),
                                       get(b), toU64(B, b)});
      else if (Inst::isScalar(T)) {
        auto Z = A();
        sh[&I] = Z.CreateCall(S.fFBin, {i32(op), i32(S.width(T)), get(a), toU64(Z, a),
                                        get(b), toU64(Z, b), toU64(Z, &I)});
      } else if (S.isVec(T) && T->getScalarType()->isIntegerTy()) {
        Value *r = nullFor(&I);
        for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++)
          r = B.CreateInsertValue(r, B.CreateCall(S.fBin, {i32(op),
                i32(S.width(T->getScalarType())), B.CreateExtractValue(get(a), i),
                toU64(B, B.CreateExtractElement(a, i)),
                B.CreateExtractValue(get(b), i),
                toU64(B, B.CreateExtractElement(b, i))}), i);
        sh[&I] = r;
      } else fallback(B, I, 20);
      return;
    }
    if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
      if (Inst::isScalar(T)) {
        Value *a = UO->getOperand(0);
        auto Z = A();
        sh[&I] = Z.CreateCall(S.fFUn, {i32(0), i32(S.width(T)), get(a), toU64(Z, a),
                                       toU64(Z, &I)});
      } else fallback(B, I, 21);
      return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (Inst::isScalar(a->getType()))
        sh[&I] = B.CreateCall(S.fCmp, {i32(IC->getPredicate()),
              i32(S.width(a->getType())), get(a), toU64(B, a), get(b), toU64(B, b)});
      else if (S.isVec(a->getType()) && S.isVec(T)) {
        Value *r = nullFor(&I);
        unsigned w = S.width(a->getType()->getScalarType());
        for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++)
          r = B.CreateInsertValue(r, B.CreateCall(S.fCmp, {i32(IC->getPredicate()),
                i32(w), B.CreateExtractValue(get(a), i),
                toU64(B, B.CreateExtractElement(a, i)),
                B.CreateExtractValue(get(b), i),
                toU64(B, B.CreateExtractElement(b, i))}), i);
        sh[&I] = r;
      } else fallback(B, I, 22);
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(&I)) {
      Value *a = FC->getOperand(0), *b = FC->getOperand(1);
      auto Z = A();
      if (Inst::isScalar(a->getType()))
        sh[&I] = Z.CreateCall(S.fFCmp, {i32(FC->getPredicate()),
              i32(S.width(a->getType())), get(a), toU64(Z, a), get(b), toU64(Z, b),
              Z.CreateZExt(&I, S.I32)});
      else fallback(B, I, 23);
      return;
    }
    if (auto *SI = dyn_cast<SelectInst>(&I)) {
      Value *c = SI->getCondition(), *t = SI->getTrueValue(), *f = SI->getFalseValue();
      if (!c->getType()->isIntegerTy()) {
        if (S.isVec(T) && S.isVec(c->getType())) {
          Value *r = nullFor(&I);
          unsigned w = S.width(T->getScalarType());
          for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++)
            r = B.CreateInsertValue(r, B.CreateCall(S.fSelect, {i32(w),
                  B.CreateExtractValue(get(c), i), toU64(B, B.CreateExtractElement(c, i)),
                  B.CreateExtractValue(get(t), i), toU64(B, B.CreateExtractElement(t, i)),
                  B.CreateExtractValue(get(f), i), toU64(B, B.CreateExtractElement(f, i))}), i);
          sh[&I] = r;
        } else fallback(B, I, 24);
        return;
      }
      if (Inst::isScalar(T))
        sh[&I] = B.CreateCall(S.fSelect, {i32(S.width(T)), get(c), toU64(B, c),
              get(t), toU64(B, t), get(f), toU64(B, f)});
      else {
        if (maySym(c))
          B.CreateCall(S.fBranch, {get(c), toU64(B, c), fname, i32(0)});
        sh[&I] = B.CreateSelect(c, get(t), get(f));
      }
      return;
    }
    if (auto *CA = dyn_cast<CastInst>(&I)) {
      Value *a = CA->getOperand(0);
      Type *ST = a->getType();
      switch (CA->getOpcode()) {
      case Instruction::BitCast: sh[&I] = bitcastShadow(B, a, T); return;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned k = CA->getOpcode() == Instruction::SExt ? 2
                   : CA->getOpcode() == Instruction::Trunc ? 0 : 1;
        if (Inst::isScalar(T) && Inst::isScalar(ST)) {
          unsigned fw = S.width(ST), tw = S.width(T);
          if (k == 1 && tw < fw) k = 0;
          sh[&I] = fw == tw ? get(a)
            : B.CreateCall(S.fCast, {i32(k), i32(fw), i32(tw), get(a), i64(0)});
        } else if (S.isVec(T) && S.isVec(ST)) {
          Value *r = nullFor(&I);
          unsigned fw = S.width(ST->getScalarType()), tw = S.width(T->getScalarType());
          for (unsigned i = 0; i < cast<FixedVectorType>(T)->getNumElements(); i++)
            r = B.CreateInsertValue(r, B.CreateCall(S.fCast, {i32(k), i32(fw), i32(tw),
                  B.CreateExtractValue(get(a), i), i64(0)}), i);
          sh[&I] = r;
        } else fallback(B, I, 25);
        return;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP:
      case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
        if (Inst::isScalar(T) && Inst::isScalar(ST)) {
          unsigned k = 10 + (CA->getOpcode() - Instruction::FPToUI);
          auto Z = A();
          sh[&I] = Z.CreateCall(S.fCast, {i32(k), i32(S.width(ST)), i32(S.width(T)),
                get(a), toU64(Z, &I)});
        } else fallback(B, I, 26);
        return;
      }
      default: fallback(B, I, 27); return;
      }
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (T->isVectorTy()) { fallback(B, I, 28); return; }
      unsigned bw = 64;
      MapVector<Value *, APInt> var;
      APInt cst(bw, 0);
      if (!G->collectOffset(S.DL, bw, var, cst)) { fallback(B, I, 29); return; }
      Value *s = get(G->getPointerOperand());
      Value *cur = B.CreatePtrToInt(G->getPointerOperand(), S.I64);
      bool dead = !maySym(G->getPointerOperand());
      for (auto &kv : var) {
        Value *ix = kv.first;
        unsigned w = S.width(ix->getType());
        if (maySym(ix) || !dead)
          s = B.CreateCall(S.fGep, {s, cur, get(ix), toU64(B, ix), i32(w),
                i64(kv.second.getZExtValue())});
        if (maySym(ix)) dead = false;
        cur = B.CreateAdd(cur, B.CreateMul(B.CreateSExtOrTrunc(ix, S.I64),
                                           i64(kv.second.getZExtValue())));
      }
      if (cst != 0 && !dead)
        s = B.CreateCall(S.fGep, {s, cur, S.Null, i64(cst.getZExtValue()), i32(64),
                                  i64(1)});
      sh[&I] = s;
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      sh[&I] = B.CreateExtractValue(get(EV->getAggregateOperand()), EV->getIndices());
      return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      sh[&I] = B.CreateInsertValue(get(IV->getAggregateOperand()),
                                   get(IV->getInsertedValueOperand()), IV->getIndices());
      return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
      auto *ix = dyn_cast<ConstantInt>(EE->getIndexOperand());
      if (ix && S.isVec(EE->getVectorOperandType())) {
        sh[&I] = B.CreateExtractValue(get(EE->getVectorOperand()), ix->getZExtValue());
        return;
      }
      fallback(B, I, 30); return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
      auto *ix = dyn_cast<ConstantInt>(IE->getOperand(2));
      if (ix && S.isVec(T)) {
        sh[&I] = B.CreateInsertValue(get(IE->getOperand(0)), get(IE->getOperand(1)),
                                     ix->getZExtValue());
        return;
      }
      fallback(B, I, 31); return;
    }
    if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
      if (S.isVec(T) && S.isVec(SV->getOperand(0)->getType())) {
        Value *r = nullFor(&I);
        int n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
        auto mask = SV->getShuffleMask();
        for (unsigned i = 0; i < mask.size(); i++) {
          if (mask[i] < 0) continue;
          Value *src = mask[i] < n ? get(SV->getOperand(0)) : get(SV->getOperand(1));
          r = B.CreateInsertValue(r, B.CreateExtractValue(src, mask[i] % n), i);
        }
        sh[&I] = r;
        return;
      }
      fallback(B, I, 32); return;
    }
    if (isa<FreezeInst>(I)) { sh[&I] = get(I.getOperand(0)); return; }
    fallback(B, I, 33);
  }

  void run() {
    analyse();
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      fname = cast<Constant>(B.CreateGlobalStringPtr(F.getName(), "symx.fn"));
    }
    std::vector<BasicBlock *> order;
    ReversePostOrderTraversal<Function *> RPOT(&F);
    for (BasicBlock *BB : RPOT) order.push_back(BB);

    // Argument shadows.  Instructions present now are the original ones.
    std::vector<std::vector<Instruction *>> insts;
    for (auto *BB : order) {
      insts.emplace_back();
      for (auto &I : *BB) insts.back().push_back(&I);
    }
    // Allocas first so that clears do not interleave problems
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      Value *match = nullptr;
      unsigned n = 0;
      bool used = false;
      for (auto &Ar : F.args()) if (!Ar.use_empty() || Ar.hasByValAttr()) used = true;
      if (used || F.isVarArg()) {
        Value *tag = B.CreateLoad(S.Ptr, S.gTag);
        match = B.CreateICmpEQ(tag, &F);
        for (auto &Ar : F.args()) {
          if (Ar.hasByValAttr()) {
            Value *src = n < Inst::MAXARGS ? (Value *)B.CreateLoad(S.Ptr, slot(B, S.gArgs, n)) : S.Null;
            n++;
            src = B.CreateSelect(match, src, S.Null);
            B.CreateCall(S.fMemcpy, {&Ar, src,
                  i64(S.DL.getTypeAllocSize(Ar.getParamByValType())), S.Null, S.Null, S.Null});
            sh[&Ar] = S.Null;
            continue;
          }
          Type *st = S.shTy(Ar.getType());
          sh[&Ar] = rebuild(B, st, [&]() -> Value * {
            unsigned k = n++;
            if (k >= Inst::MAXARGS || Ar.use_empty()) return S.Null;
            return B.CreateSelect(match, B.CreateLoad(S.Ptr, slot(B, S.gArgs, k)), S.Null);
          });
        }
        B.CreateStore(B.CreateSelect(match, S.Null, tag), S.gTag);
      } else
        for (auto &Ar : F.args()) sh[&Ar] = Constant::getNullValue(S.shTy(Ar.getType()));
    }
    for (auto &v : insts)
      for (Instruction *I : v) visit(*I);
    for (auto &[P, SP] : phis)
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        Value *V = P->getIncomingValue(i);
        Value *s;
        if (maySym(V) && !sh.count(V)) s = Constant::getNullValue(SP->getType()); // unreachable pred
        else s = get(V);
        SP->addIncoming(s, P->getIncomingBlock(i));
      }
  }
};

struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    // Redirect libc calls to their models
    for (Function &F : make_early_inc_range(M)) {
      if (!F.isDeclaration() || F.isIntrinsic()) continue;
      std::string n = F.getName().str();
      if (n.size() && n[0] == '\1') n = n.substr(1);
      if (kRedirect.count(n)) {
        std::string nn = "symx_libc_" + n;
        if (Function *G = M.getFunction(nn)) F.replaceAllUsesWith(G);
        else F.setName(nn);
      }
    }
    std::vector<Function *> fs;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage()
          && !F.hasFnAttribute(Attribute::Naked))
        fs.push_back(&F);
    Inst S(M);
    for (Function *F : fs) {
      // side effects were added: memory attributes no longer hold
      F->removeFnAttr(Attribute::Memory);
      F->removeFnAttr(Attribute::NoFree);
      F->removeFnAttr(Attribute::WillReturn);
      F->removeFnAttr(Attribute::NoSync);
      for (auto &A : F->args()) {
        A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly);
        A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture);
      }
    }
    for (Function &F : M)
      if (F.isDeclaration() && !F.isIntrinsic() && !F.getName().starts_with("symx_")) {
        F.removeFnAttr(Attribute::Memory);
        F.removeFnAttr(Attribute::WillReturn);
      } else if (F.isDeclaration() && F.getName().starts_with("symx_libc_")) {
        F.removeFnAttr(Attribute::Memory);
        F.removeFnAttr(Attribute::WillReturn);
        for (auto &A : F.args()) {
          A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly);
          A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoCapture);
        }
      }
    for (Function *F : fs) {
      for (auto &BB : *F) for (auto &I : BB) {
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(CB)) continue;
          CB->removeFnAttr(Attribute::Memory);
          CB->removeFnAttr(Attribute::WillReturn);
          if (auto *CI = dyn_cast<CallInst>(CB)) if (!CI->isMustTailCall()) CI->setTailCall(false);
        }
      }
    }
    for (Function *F : fs) { FuncInst FI(S, *F); FI.run(); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
      MPM.addPass(SymxPass());
    });
  }};
}
