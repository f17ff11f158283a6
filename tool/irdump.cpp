// irdump: dump the resolved program (LLVM IR + debug-info types) of one
// bitcode module as JSON, for the analyses in /verif/sa.  It never executes
// the analysed code; it only reads the compiler's intermediate representation.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::set<const DICompositeType*> structsSeen;
static std::vector<const DICompositeType*> structsQ;

static std::string diName(const DIType* t);

static std::string compName(const DICompositeType* c) {
  if (!c->getName().empty()) return c->getName().str();
  return ("anon@" + c->getFilename() + ":" + Twine(c->getLine())).str();
}
static std::string diName(const DIType* t) {
  if (!t) return "void";
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
      if (structsSeen.insert(c).second) structsQ.push_back(c);
      return "struct " + compName(c);
    }
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      uint64_t esz = 0; auto* et = c->getBaseType();
      if (et) esz = et->getSizeInBits() / 8;
      return "[" + diName(et) + "]";
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum";
    return "composite";
  }
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diName(d->getBaseType()) + "*";
      default: return diName(d->getBaseType());
    }
  }
  if (isa<DISubroutineType>(t)) return "fn";
  if (auto* b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  return "?";
}

static json::Value constant(const Constant* c);

static std::string gname(const GlobalValue* g) { return "@" + g->getName().str(); }

static json::Value constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return json::Array{"i", (int64_t)ci->getZExtValue(), (int64_t)ci->getBitWidth()};
    return json::Array{"undef"};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef"};
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) return json::Array{"g", gname(g), 0};
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        json::Value b = constant(cast<Constant>(gep->getPointerOperand()));
        auto* arr = b.getAsArray();
        if (arr && (*arr)[0].getAsString() == std::optional<StringRef>("g")) {
          int64_t o = *(*arr)[2].getAsInteger();
          return json::Array{"g", (*arr)[1], o + off.getSExtValue()};
        }
        if (arr && (*arr)[0].getAsString() == std::optional<StringRef>("null"))
          return json::Array{"c", off.getSExtValue()};
      }
    }
    if (ce->getOpcode() == Instruction::IntToPtr)
      if (auto* ci = dyn_cast<ConstantInt>(ce->getOperand(0)))
        return json::Array{"c", ci->getSExtValue()};
    if (ce->getOpcode() == Instruction::BitCast) return constant(ce->getOperand(0));
    if (ce->getOpcode() == Instruction::PtrToInt) {
      json::Value b = constant(ce->getOperand(0));
      return b;
    }
  }
  return json::Array{"undef"};
}
static json::Value op(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"undef"};
  return (int64_t)it->second;
}
static void flatten(const Constant* c, uint64_t off, json::Array& out) {
  Type* t = c->getType();
  uint64_t sz = DL->getTypeAllocSize(t);
  if (c->isNullValue()) { out.push_back(json::Array{(int64_t)off, (int64_t)sz, json::Array{"zero"}}); return; }
  if (isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) flatten(cs->getOperand(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, out);
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); ++i) {
      if (cd->getElementType()->isIntegerTy())
        out.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, json::Array{"i", (int64_t)cd->getElementAsInteger(i), (int64_t)(es * 8)}});
    }
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)sz, constant(c)});
}
static json::Value tyOf(Type* t) {
  if (t->isVoidTy()) return "v";
  if (t->isPointerTy()) return "p";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isSized()) return "a" + std::to_string(DL->getTypeAllocSize(t));
  return "?";
}

// is it a pointer through which nothing may be written?
static bool readOnly(const DIType* t) {
  auto strip = [](const DIType* t, bool& c) {
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_const_type) c = true;
      else if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_volatile_type) break;
      t = d->getBaseType();
    }
    return t;
  };
  bool c = false;
  t = strip(t, c);
  auto* d = dyn_cast_or_null<DIDerivedType>(t);
  if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) return false;
  c = false;
  strip(d->getBaseType(), c);
  return c;
}

// is it the type of byte and element counts?
static bool sizeType(const DIType* t) {
  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_typedef) { if (d->getName() == "size_t" || d->getName() == "ssize_t") return true; }
    else if (d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_volatile_type) return false;
    t = d->getBaseType();
  }
  return false;
}
static const DIType* bare(const DIType* t) {
  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_volatile_type) break;
    t = d->getBaseType();
  }
  return t;
}
static bool sizePointer(const DIType* t) {
  auto* d = dyn_cast_or_null<DIDerivedType>(bare(t));
  return d && d->getTag() == dwarf::DW_TAG_pointer_type && sizeType(d->getBaseType());
}
static std::map<std::string, const DICompositeType*> composites;
static std::map<const Value*, const DIType*> vartype, slottype;   // variable held by a value / by an alloca
static bool sizeMember(const DICompositeType* c, uint64_t off) {
  for (auto* e : c->getElements())
    if (auto* d = dyn_cast<DIDerivedType>(e))
      if (d->getTag() == dwarf::DW_TAG_member) {
        uint64_t o = d->getOffsetInBits() / 8, z = d->getSizeInBits() / 8;
        if (off < o || off >= o + z) continue;
        if (auto* in = dyn_cast_or_null<DICompositeType>(bare(d->getBaseType()))) return in->getTag() == dwarf::DW_TAG_structure_type && sizeMember(in, off - o);
        return off == o && sizeType(d->getBaseType());
      }
  return false;
}
static bool sizePlace(const Value* p, std::set<const Value*>& seen);
static bool sizeValue(const Value* v, std::set<const Value*>& seen) {
  if (isa<Constant>(v) || !seen.insert(v).second) return false;
  auto it = vartype.find(v);
  if (it != vartype.end() && sizeType(it->second)) return true;
  if (auto* l = dyn_cast<LoadInst>(v)) return sizePlace(l->getPointerOperand(), seen);
  if (auto* b = dyn_cast<BinaryOperator>(v)) {
    auto o = b->getOpcode();
    if (o == Instruction::Add || o == Instruction::Sub || o == Instruction::Mul) return sizeValue(b->getOperand(0), seen) || sizeValue(b->getOperand(1), seen);
    return o == Instruction::UDiv && sizeValue(b->getOperand(0), seen);
  }
  if (auto* s = dyn_cast<SelectInst>(v)) return sizeValue(s->getTrueValue(), seen) || sizeValue(s->getFalseValue(), seen);
  if (auto* p = dyn_cast<PHINode>(v)) { for (auto& u : p->incoming_values()) if (sizeValue(u.get(), seen)) return true; return false; }
  if (auto* c = dyn_cast<CallInst>(v)) if (auto* f = c->getCalledFunction()) {
    if (auto* sp = f->getSubprogram()) if (auto* st = sp->getType()) if (st->getTypeArray().size() && sizeType(st->getTypeArray()[0])) return true;
    return f->getName() == "strlen" || f->getName() == "strnlen" || f->getName() == "read" || f->getName() == "write";
  }
  return false;
}
static bool sizePlace(const Value* p, std::set<const Value*>& seen) {
  auto it = vartype.find(p);
  if (it != vartype.end() && sizePointer(it->second)) return true;
  auto sl = slottype.find(p);
  if (sl != slottype.end() && sizeType(sl->second)) return true;
  if (auto* g = dyn_cast<GEPOperator>(p)) {
    auto* s = dyn_cast<StructType>(g->getSourceElementType());
    if (!s || !s->hasName()) return false;
    APInt c(64, 0); MapVector<Value*, APInt> var;
    if (!g->collectOffset(*DL, 64, var, c)) return false;
    std::string n = s->getName().str();
    if (n.rfind("struct.", 0) == 0) n = n.substr(7);
    auto f = composites.find(n);
    if (f == composites.end()) { auto d = n.rfind('.'); if (d != std::string::npos) f = composites.find(n.substr(0, d)); }
    return f != composites.end() && sizeMember(f->second, c.getZExtValue() % (f->second->getSizeInBits() / 8 ? f->second->getSizeInBits() / 8 : 1));
  }
  return false;
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  json::Object root;
  json::Object globals, funcs, structs;
  DebugInfoFinder all; all.processModule(*m);
  for (auto* t : all.types()) if (auto* c = dyn_cast<DICompositeType>(t)) if (!c->isForwardDecl() && c->getTag() == dwarf::DW_TAG_structure_type && !c->getName().empty()) composites[c->getName().str()] = c;
  for (auto& g : m->globals()) {
    json::Object o;
    o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0);
    o["const"] = g.isConstant();
    o["section"] = g.getSection().str();
    o["internal"] = g.hasLocalLinkage();
    if (g.hasInitializer()) { json::Array a; flatten(g.getInitializer(), 0, a); o["init"] = std::move(a); }
    SmallVector<DIGlobalVariableExpression*, 2> gv; g.getDebugInfo(gv);
    if (!gv.empty()) {
      auto* v = gv[0]->getVariable();
      o["type"] = diName(v->getType()); o["line"] = (int64_t)v->getLine(); o["file"] = v->getFilename().str(); o["diname"] = v->getName().str();
    }
    globals[gname(&g)] = std::move(o);
  }
  for (auto& f : *m) {
    if (f.isIntrinsic() && f.isDeclaration()) continue;
    json::Object o;
    o["ret"] = tyOf(f.getReturnType());
    o["internal"] = f.hasLocalLinkage();
    o["vararg"] = f.isVarArg();
    ids.clear(); int n = 0;
    json::Array args;
    std::vector<std::string> ditys;
    json::Array ro;
    if (auto* sp = f.getSubprogram()) {
      o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); o["diname"] = sp->getName().str();
      if (auto* st = sp->getType()) {
        auto ta = st->getTypeArray();
        for (unsigned i = 0; i < ta.size(); ++i) { if (i == 0) { o["diret"] = diName(ta[0]); if (auto* td = dyn_cast_or_null<DIDerivedType>(ta[0])) if (td->getTag() == dwarf::DW_TAG_typedef) o["rettd"] = td->getName().str(); } else { ditys.push_back(diName(ta[i])); if (readOnly(ta[i])) ro.push_back((int64_t)i - 1); } }
      }
    }
    vartype.clear(); slottype.clear();
    for (auto& b : f) for (auto& i : b) {
      if (auto* d = dyn_cast<DbgDeclareInst>(&i)) { if (d->getAddress()) slottype[d->getAddress()] = d->getVariable()->getType(); }
      else if (auto* d = dyn_cast<DbgValueInst>(&i)) {
        if (!d->hasArgList() && d->getValue() && !isa<Constant>(d->getValue())) { auto& t = vartype[d->getValue()]; if (!t || sizeType(d->getVariable()->getType())) t = d->getVariable()->getType(); }
      }
    }
    if (auto* sp = f.getSubprogram()) if (auto* st = sp->getType()) {
      auto ta = st->getTypeArray();
      for (auto& a : f.args()) if (a.getArgNo() + 1 < ta.size() && !vartype.count(&a)) vartype[&a] = ta[a.getArgNo() + 1];
    }
    unsigned ai = 0;
    std::map<unsigned, std::string> argnames;
    if (auto* sp = f.getSubprogram())
      for (auto* nd : sp->getRetainedNodes())
        if (auto* lv = dyn_cast<DILocalVariable>(nd)) if (lv->getArg()) argnames[lv->getArg() - 1] = lv->getName().str();
    for (auto& a : f.args()) {
      ids[&a] = n;
      std::string nm = a.getName().str(); if (nm.empty() && argnames.count(ai)) nm = argnames[ai];
      args.push_back(json::Array{(int64_t)n, tyOf(a.getType()), ai < ditys.size() ? ditys[ai] : std::string("?"), nm});
      ++n; ++ai;
    }
    o["args"] = std::move(args);
    o["readonly"] = std::move(ro);
    if (!f.isDeclaration()) {
      std::map<const BasicBlock*, int> bid; int bn = 0;
      for (auto& b : f) { bid[&b] = bn++; for (auto& i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
      o["nvals"] = n;
      json::Array blocks;
      for (auto& b : f) {
        json::Array insts;
        for (auto& i : b) {
          if (isa<DbgInfoIntrinsic>(&i)) continue;
          int64_t dst = i.getType()->isVoidTy() ? -1 : ids[&i];
          int64_t line = 0; std::string file;
          if (auto& dl = i.getDebugLoc()) { line = dl.getLine(); file = cast<DIScope>(dl.getScope())->getFilename().str(); }
          json::Array r;
          if (auto* x = dyn_cast<AllocaInst>(&i)) {
            auto sz = x->getAllocationSize(*DL);
            std::string dn;
            r = json::Array{"alloca", dst, sz ? (int64_t)sz->getFixedValue() : -1, x->getName().str()};
          } else if (auto* x = dyn_cast<LoadInst>(&i)) {
            r = json::Array{"load", dst, op(x->getPointerOperand()), (int64_t)DL->getTypeStoreSize(x->getType()), tyOf(x->getType())};
          } else if (auto* x = dyn_cast<StoreInst>(&i)) {
            r = json::Array{"store", dst, op(x->getValueOperand()), op(x->getPointerOperand()), (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()), tyOf(x->getValueOperand()->getType())};
          } else if (auto* x = dyn_cast<GetElementPtrInst>(&i)) {
            MapVector<Value*, APInt> var; APInt c(64, 0);
            auto* go = cast<GEPOperator>(x);
            json::Array vs;
            bool ok = go->collectOffset(*DL, 64, var, c);
            for (auto& kv : var) vs.push_back(json::Array{op(kv.first), kv.second.getSExtValue(), (int64_t)(kv.first->getType()->getIntegerBitWidth())});
            std::string st; if (auto* s = dyn_cast<StructType>(x->getSourceElementType())) if (s->hasName()) st = s->getName().str();
            r = json::Array{"gep", dst, op(x->getPointerOperand()), c.getSExtValue(), std::move(vs), st, ok};
          } else if (auto* x = dyn_cast<ICmpInst>(&i)) {
            r = json::Array{"icmp", dst, ICmpInst::getPredicateName(x->getPredicate()).str(), op(x->getOperand(0)), op(x->getOperand(1)), tyOf(x->getOperand(0)->getType())};
          } else if (auto* x = dyn_cast<BinaryOperator>(&i)) {
            r = json::Array{"bin", dst, x->getOpcodeName(), op(x->getOperand(0)), op(x->getOperand(1)), tyOf(x->getType())};
          } else if (auto* x = dyn_cast<CastInst>(&i)) {
            r = json::Array{"cast", dst, x->getOpcodeName(), op(x->getOperand(0)), tyOf(x->getSrcTy()), tyOf(x->getDestTy())};
            std::set<const Value*> seen;
            if (isa<TruncInst>(x) && x->getSrcTy()->isIntegerTy(64) && sizeValue(x->getOperand(0), seen)) r.push_back("size");
          } else if (auto* x = dyn_cast<PHINode>(&i)) {
            json::Array in;
            for (unsigned k = 0; k < x->getNumIncomingValues(); ++k) in.push_back(json::Array{op(x->getIncomingValue(k)), (int64_t)bid[x->getIncomingBlock(k)]});
            r = json::Array{"phi", dst, std::move(in), tyOf(x->getType())};
          } else if (auto* x = dyn_cast<SelectInst>(&i)) {
            r = json::Array{"select", dst, op(x->getCondition()), op(x->getTrueValue()), op(x->getFalseValue())};
          } else if (auto* x = dyn_cast<BranchInst>(&i)) {
            if (x->isUnconditional()) r = json::Array{"br", dst, (int64_t)bid[x->getSuccessor(0)]};
            else r = json::Array{"cbr", dst, op(x->getCondition()), (int64_t)bid[x->getSuccessor(0)], (int64_t)bid[x->getSuccessor(1)]};
          } else if (auto* x = dyn_cast<SwitchInst>(&i)) {
            json::Array cs;
            for (auto& c : x->cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getZExtValue(), (int64_t)bid[c.getCaseSuccessor()]});
            r = json::Array{"switch", dst, op(x->getCondition()), (int64_t)bid[x->getDefaultDest()], std::move(cs), tyOf(x->getCondition()->getType())};
          } else if (auto* x = dyn_cast<ReturnInst>(&i)) {
            if (x->getReturnValue()) r = json::Array{"ret", dst, op(x->getReturnValue())}; else r = json::Array{"ret", dst};
          } else if (isa<UnreachableInst>(&i)) {
            r = json::Array{"unreachable", dst};
          } else if (auto* x = dyn_cast<ExtractValueInst>(&i)) {
            uint64_t off = 0; Type* t = x->getAggregateOperand()->getType();
            for (unsigned idx : x->indices()) {
              if (auto* st = dyn_cast<StructType>(t)) { off += DL->getStructLayout(st)->getElementOffset(idx); t = st->getElementType(idx); }
              else if (auto* at = dyn_cast<ArrayType>(t)) { t = at->getElementType(); off += idx * DL->getTypeAllocSize(t); }
            }
            r = json::Array{"extractvalue", dst, op(x->getAggregateOperand()), (int64_t)off, tyOf(x->getType())};
          } else if (auto* x = dyn_cast<CallBase>(&i)) {
            json::Array as; json::Array tys;
            for (auto& a : x->args()) { as.push_back(op(a)); tys.push_back(tyOf(a->getType())); }
            r = json::Array{"call", dst, op(x->getCalledOperand()), std::move(as), tyOf(x->getType()), std::move(tys), isa<CallInst>(x) && cast<CallInst>(x)->isInlineAsm()};
          } else if (auto* x = dyn_cast<FreezeInst>(&i)) {
            r = json::Array{"cast", dst, "freeze", op(x->getOperand(0)), tyOf(x->getType()), tyOf(x->getType())};
          } else {
            std::string s; raw_string_ostream os(s); os << i.getOpcodeName();
            json::Array as;
            for (auto& u : i.operands()) as.push_back(op(u.get()));
            r = json::Array{"other", dst, s, std::move(as)};
          }
          insts.push_back(json::Array{line, file, std::move(r)});
        }
        blocks.push_back(std::move(insts));
      }
      o["blocks"] = std::move(blocks);
    }
    funcs[f.getName().str()] = std::move(o);
  }
  // types
  DebugInfoFinder fnd; fnd.processModule(*m);
  for (auto* t : fnd.types()) diName(t);
  while (!structsQ.empty()) {
    auto* c = structsQ.back(); structsQ.pop_back();
    if (c->isForwardDecl()) continue;
    json::Array mem;
    for (auto* e : c->getElements())
      if (auto* d = dyn_cast<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_member)
          mem.push_back(json::Array{(int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), d->getName().str(), diName(d->getBaseType())});
    structs[compName(c)] = json::Object{{"size", (int64_t)(c->getSizeInBits() / 8)}, {"members", std::move(mem)}, {"union", c->getTag() == dwarf::DW_TAG_union_type}, {"file", c->getFilename().str()}};
  }
  root["globals"] = std::move(globals); root["functions"] = std::move(funcs); root["structs"] = std::move(structs);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
