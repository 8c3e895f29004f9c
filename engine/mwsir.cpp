// mwsir: link the bitcode of every translation unit of the tree under analysis into one module,
// promote locals to SSA, and dump the resolved program (functions, CFGs, instructions with
// source lines, vtables with type metadata, struct layouts and debug-info member names) as JSON.
//
// usage: mwsir OUT.json SRCROOT file.bc...
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/TypeFinder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <map>
using namespace llvm;

static std::string root;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static Module* M;

static std::string absFile(const DIFile* f) {
  if (!f) return "";
  SmallString<256> p(f->getFilename());
  if (!sys::path::is_absolute(p)) {
    SmallString<256> q(f->getDirectory());
    sys::path::append(q, p);
    p = q;
  }
  sys::path::remove_dots(p, true);
  return std::string(p.str());
}
static bool inRepo(const std::string& f) {
  return StringRef(f).starts_with(root + "/");
}
static bool isRepoFn(const Function& F) {
  if (F.isDeclaration()) return false;
  if (auto* sp = F.getSubprogram()) {
    std::string f = absFile(sp->getFile());
    return inRepo(f) && StringRef(f).find("/googleurl/") == StringRef::npos;
  }
  return false;
}
static std::string tyStr(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->hasName()) return ("%" + st->getName()).str();
  }
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

static json::Value val(const Value* v, int depth = 0);

static json::Value constInt(const ConstantInt* ci) {
  if (ci->getBitWidth() <= 64) {
    if (ci->getBitWidth() == 1) return json::Array{"c", (int64_t)ci->getZExtValue(), 1};
    return json::Array{"c", (int64_t)ci->getSExtValue(), (int64_t)ci->getBitWidth()};
  }
  return json::Array{"big"};
}

static json::Object gepInfo(const GEPOperator* g) {
  json::Object o;
  o["sty"] = tyStr(g->getSourceElementType());
  MapVector<Value*, APInt> vars;
  APInt c(64, 0);
  if (g->collectOffset(*DL, 64, vars, c)) {
    o["off"] = c.getSExtValue();
    if (!vars.empty()) {
      json::Array a;
      for (auto& kv : vars) a.push_back(json::Array{val(kv.first, 1), kv.second.getSExtValue()});
      o["var"] = std::move(a);
    }
  }
  json::Array path;
  Type* T = g->getSourceElementType();
  for (unsigned k = 1; k < g->getNumOperands(); k++) {
    Value* idx = g->getOperand(k);
    if (k == 1) { path.push_back(json::Array{"p", val(idx, 1)}); continue; }
    if (auto* st = dyn_cast<StructType>(T)) {
      unsigned f = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
      path.push_back(json::Array{"s", tyStr(st), (int64_t)f});
      T = st->getElementType(f);
    } else if (auto* at = dyn_cast<ArrayType>(T)) {
      path.push_back(json::Array{"x", (int64_t)at->getNumElements(), val(idx, 1)});
      T = at->getElementType();
    } else { path.push_back(json::Array{"x", (int64_t)-1, val(idx, 1)}); break; }
  }
  o["path"] = std::move(path);
  return o;
}

static json::Value val(const Value* v, int depth) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) return constInt(ci);
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return json::Array{"u"};
  if (auto* f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
  if (auto* ga = dyn_cast<GlobalAlias>(v)) return val(ga->getAliasee(), depth);
  if (auto* g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (auto* a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
  if (auto* b = dyn_cast<BasicBlock>(v)) return json::Array{"b", (int64_t)ids[b]};
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    if (cf->getType()->isDoubleTy()) return json::Array{"d", cf->getValueAPF().convertToDouble()};
    if (cf->getType()->isFloatTy()) return json::Array{"d", (double)cf->getValueAPF().convertToFloat()};
    return json::Array{"d", 0.0};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    json::Array a{"e", ce->getOpcodeName()};
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      a.push_back(val(g->getPointerOperand(), depth + 1));
      a.push_back(gepInfo(g));
    } else {
      for (auto& op : ce->operands()) a.push_back(val(op, depth + 1));
    }
    return a;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
    if (ca->getNumOperands() > 4096 || depth > 6) return json::Array{"big"};
    json::Array a;
    for (auto& op : ca->operands()) a.push_back(val(op, depth + 1));
    return json::Array{"agg", std::move(a), tyStr(ca->getType())};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
    if (cd->isString()) {
      std::string s = cd->getAsString().str();
      while (!s.empty() && s.back() == 0) s.pop_back();
      return json::Array{"s", json::fixUTF8(s), (int64_t)cd->getNumElements()};
    }
    if (cd->getNumElements() > 4096) return json::Array{"big"};
    json::Array a;
    for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(val(cd->getElementAsConstant(i), depth + 1));
    return json::Array{"agg", std::move(a), tyStr(cd->getType())};
  }
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z", tyStr(v->getType())};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  if (auto* mv = dyn_cast<MetadataAsValue>(v)) {
    if (auto* s = dyn_cast<MDString>(mv->getMetadata())) return json::Array{"md", s->getString().str()};
    return json::Array{"md"};
  }
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"i", (int64_t)it->second};
  return json::Array{"?"};
}

static std::string diName(const DIScope* s) {
  std::string n;
  while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) {
    StringRef nm = s->getName();
    if (isa<DINamespace>(s) && nm.empty()) nm = "(anonymous namespace)";
    if (!nm.empty()) n = n.empty() ? nm.str() : nm.str() + "::" + n;
    s = s->getScope();
  }
  return n;
}
static std::string diTypeName(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(d->getBaseType());
    case dwarf::DW_TAG_typedef: {
      auto r = diTypeName(d->getBaseType());
      return r.empty() ? d->getName().str() : r;
    }
    default: return diName(d);
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(c->getBaseType());
      for (auto* e : c->getElements())
        if (auto* sr = dyn_cast<DISubrange>(e)) {
          auto cnt = sr->getCount();
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(cnt)) s += "[" + std::to_string(ci->getSExtValue()) + "]";
          else s += "[]";
        }
      return s;
    }
    if (c->getName().empty()) return "";
    return diName(c);
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

int main(int argc, char** argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  root = argv[2];
  LLVMContext C;
  std::unique_ptr<Module> Dst = std::make_unique<Module>("whole", C);
  Linker L(*Dst);
  bool first = true;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic err;
    auto m = parseIRFile(argv[i], err, C);
    if (!m) { err.print("mwsir", errs()); return 2; }
    if (first) { Dst->setDataLayout(m->getDataLayout()); Dst->setTargetTriple(m->getTargetTriple()); first = false; }
    if (Function* mf = m->getFunction("main")) if (!mf->isDeclaration()) {
      for (auto& f : *m) if (!f.isDeclaration() && f.hasExternalLinkage() && &f != mf) f.setLinkage(GlobalValue::InternalLinkage);
      for (auto& g : m->globals()) if (!g.isDeclaration() && g.hasExternalLinkage()) g.setLinkage(GlobalValue::InternalLinkage);
      std::string stem = sys::path::stem(sys::path::stem(sys::path::filename(argv[i]))).str();
      mf->setName("main." + stem);
    }
    if (L.linkInModule(std::move(m))) { errs() << "link error " << argv[i] << "\n"; return 2; }
  }
  M = Dst.get();
  {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa,adce)")) { errs() << "pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::error_code ec;
  raw_fd_ostream out(argv[1], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  json::OStream J(out);
  J.objectBegin();

  // functions
  J.attributeArray("functions", [&] {
    for (auto& F : *M) {
      if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
      J.object([&] {
        J.attribute("name", F.getName().str());
        std::string base = F.getName().str();
        size_t dot = base.find('.');
        std::string dem = demangle(StringRef(base).starts_with("_Z") && dot != std::string::npos ? base.substr(0, dot) : base);
        J.attribute("dem", dem);
        J.attribute("decl", F.isDeclaration());
        if (F.doesNotReturn()) J.attribute("noreturn", true);
        if (F.doesNotThrow()) J.attribute("nounwind", true);
        if (F.hasLocalLinkage()) J.attribute("internal", true);
        J.attribute("ret", tyStr(F.getReturnType()));
        J.attributeArray("args", [&] {
          for (auto& A : F.args()) {
            if (A.hasStructRetAttr()) J.value("sret:" + tyStr(A.getParamStructRetType()));
            else if (A.hasByValAttr()) J.value("byval:" + tyStr(A.getParamByValType()));
            else J.value(tyStr(A.getType()));
          }
        });
        J.attribute("variadic", F.isVarArg());
        if (F.isDeclaration()) return;
        bool repo = isRepoFn(F);
        J.attribute("repo", repo);
        if (auto* sp = F.getSubprogram()) {
          J.attribute("file", absFile(sp->getFile()));
          J.attribute("line", (int64_t)sp->getLine());
          if (auto* cls = dyn_cast_or_null<DICompositeType>(sp->getScope())) J.attribute("cls", diName(cls));
          std::vector<std::string> pt;
          if (auto* st = sp->getType()) {
            J.attributeArray("ditypes", [&] { for (auto* t : st->getTypeArray()) J.value(diTypeName(t)); });
          }
        }
        if (!repo) {
          std::set<std::string> callees; bool ind = false;
          for (auto& I : instructions(F)) {
            for (auto& op : I.operands()) {
              const Value* v = op.get()->stripPointerCasts();
              if (auto* f = dyn_cast<Function>(v)) { if (!f->isIntrinsic()) callees.insert(f->getName().str()); }
            }
            if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->isIndirectCall()) ind = true;
          }
          J.attributeArray("uses", [&] { for (auto& s : callees) J.value(s); });
          if (ind) J.attribute("ind", true);
        }
        ids.clear();
        int n = 0, b = 0;
        for (auto& BB : F) { ids[&BB] = b++; for (auto& I : BB) ids[&I] = n++; }
        if (!repo) {
          // smart-pointer plumbing is analysed through its real bodies; other library code is modelled
          bool keep = false;
          for (const char* p : {"std::unique_ptr<", "std::default_delete<", "std::__uniq_ptr_", "std::tuple<", "std::_Tuple_impl<", "std::_Head_base<", "std::get<", "std::__get_helper", "std::move<", "std::forward<", "std::swap<", "std::remove_reference", "std::addressof", "std::__addressof", "std::__is_constructible", "std::__ptr"})
            if (dem.find(p) != std::string::npos) { size_t par = dem.find('('); size_t at = dem.find(p); if (at <= (par == std::string::npos ? 0 : par) && (at == 0 || dem[at-1] == ' ' || dem[at-1] == '&' || dem[at-1] == '*')) keep = true; }
          if (!keep) return;
        }
        // names of locals (debug info)
        std::map<const Value*, std::string> vn;
        for (auto& BB : F) for (auto& I : BB) {
          if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (auto* v = dv->getVariableLocationOp(0)) if (!vn.count(v)) vn[v] = dv->getVariable()->getName().str();
          }
        }
        J.attributeArray("blocks", [&] {
          for (auto& BB : F) {
            J.array([&] {
              for (auto& I : BB) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                json::Object o;
                o["i"] = ids[&I];
                o["op"] = I.getOpcodeName();
                if (!I.getType()->isVoidTy()) o["t"] = tyStr(I.getType());
                if (auto dl = I.getDebugLoc()) {
                  o["l"] = (int64_t)dl.getLine();
                  if (auto* s = dl->getScope()) {
                    std::string f = absFile(s->getFile());
                    if (F.getSubprogram() && f != absFile(F.getSubprogram()->getFile())) o["lf"] = f;
                  }
                }
                auto it = vn.find(&I);
                if (it != vn.end()) o["n"] = it->second;
                if (auto* cb = dyn_cast<CallBase>(&I)) {
                  o["fn"] = val(cb->getCalledOperand()->stripPointerCasts());
                  json::Array a; for (auto& x : cb->args()) a.push_back(val(x.get()));
                  o["a"] = std::move(a);
                  if (auto* iv = dyn_cast<InvokeInst>(cb)) {
                    o["to"] = ids[iv->getNormalDest()]; o["uw"] = ids[iv->getUnwindDest()];
                  }
                  if (cb->doesNotReturn()) o["nr"] = true;
                  if (cb->doesNotThrow()) o["nt"] = true;
                  for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->isByValArgument(k)) { o["byval"] = true; }
                } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                  o["ty"] = tyStr(al->getAllocatedType());
                  o["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
                  if (al->isArrayAllocation()) o["cnt"] = val(al->getArraySize());
                } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                  o["a"] = json::Array{val(g->getPointerOperand())};
                  o["gep"] = gepInfo(cast<GEPOperator>(g));
                } else if (auto* ph = dyn_cast<PHINode>(&I)) {
                  json::Array a;
                  for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
                    a.push_back(json::Array{val(ph->getIncomingValue(k)), (int64_t)ids[ph->getIncomingBlock(k)]});
                  o["phi"] = std::move(a);
                } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                  if (br->isConditional()) o["a"] = json::Array{val(br->getCondition())};
                  json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back((int64_t)ids[br->getSuccessor(k)]);
                  o["s"] = std::move(s);
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                  o["a"] = json::Array{val(sw->getCondition())};
                  o["def"] = ids[sw->getDefaultDest()];
                  json::Array s;
                  for (auto& c : sw->cases()) s.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), (int64_t)ids[c.getCaseSuccessor()]});
                  o["cases"] = std::move(s);
                } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                  o["cleanup"] = lp->isCleanup();
                  json::Array s; for (unsigned k = 0; k < lp->getNumClauses(); k++) s.push_back(val(lp->getClause(k)));
                  o["clauses"] = std::move(s);
                } else {
                  json::Array a; for (auto& x : I.operands()) a.push_back(val(x.get()));
                  o["a"] = std::move(a);
                  if (auto* c = dyn_cast<CmpInst>(&I)) { o["p"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["ct"] = tyStr(c->getOperand(0)->getType()); }
                  if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                  if (auto* ev = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                  if (auto* st = dyn_cast<StoreInst>(&I)) { o["vt"] = tyStr(st->getValueOperand()->getType()); o["vs"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); }
                  if (auto* ld = dyn_cast<LoadInst>(&I)) { o["vs"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue(); }
                  if (isa<CastInst>(&I)) o["ft"] = tyStr(I.getOperand(0)->getType());
                }
                J.value(std::move(o));
              }
            });
          }
        });
      });
    }
  });
  ids.clear();
  // globals
  J.attributeArray("globals", [&] {
    for (auto& G : M->globals()) {
      J.object([&] {
        J.attribute("name", G.getName().str());
        J.attribute("dem", demangle(G.getName().str()));
        J.attribute("const", G.isConstant());
        J.attribute("decl", G.isDeclaration());
        J.attribute("tls", G.isThreadLocal());
        J.attribute("ty", tyStr(G.getValueType()));
        if (!G.isDeclaration()) J.attribute("sz", (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue());
        SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
        if (!gv.empty()) {
          auto* v = gv[0]->getVariable();
          J.attribute("file", absFile(v->getFile())); J.attribute("line", (int64_t)v->getLine());
          J.attribute("scope", diName(v->getScope())); J.attribute("dty", diTypeName(v->getType()));
        }
        if (G.hasInitializer()) {
          bool small = DL->getTypeAllocSize(G.getValueType()).getFixedValue() < 65536;
          if (small) J.attribute("init", val(G.getInitializer()));
        }
        SmallVector<MDNode*, 4> types; G.getMetadata(LLVMContext::MD_type, types);
        if (!types.empty()) {
          J.attributeArray("types", [&] {
            for (auto* n : types) {
              auto* off = cast<ConstantInt>(cast<ConstantAsMetadata>(n->getOperand(0))->getValue());
              std::string id;
              if (auto* s = dyn_cast<MDString>(n->getOperand(1))) id = s->getString().str();
              else { raw_string_ostream o(id); o << "anon" << (const void*)n->getOperand(1).get(); }
              J.value(json::Array{off->getSExtValue(), id});
            }
          });
          if (G.hasInitializer()) {
            // flatten vtable to (byte offset, function)
            json::Array fl;
            auto* init = G.getInitializer();
            if (auto* st = dyn_cast<StructType>(init->getType())) {
              auto* sl = DL->getStructLayout(st);
              for (unsigned k = 0; k < st->getNumElements(); k++) {
                auto* arr = init->getAggregateElement(k);
                auto* at = dyn_cast<ArrayType>(arr->getType());
                if (!at) continue;
                for (unsigned j = 0; j < at->getNumElements(); j++) {
                  auto* e = arr->getAggregateElement(j)->stripPointerCasts();
                  if (auto* f = dyn_cast<Function>(e))
                    fl.push_back(json::Array{(int64_t)(sl->getElementOffset(k).getFixedValue() + 8 * j), f->getName().str()});
                }
              }
            }
            J.attribute("vt", std::move(fl));
          }
        }
      });
    }
  });
  // struct layouts
  J.attributeObject("structs", [&] {
    TypeFinder tf; tf.run(*M, true);
    std::set<std::string> seen;
    for (auto* st : tf) {
      if (st->isOpaque() || !st->isSized()) continue;
      std::string n = tyStr(st);
      if (!seen.insert(n).second) continue;
      J.attributeObject(n, [&] {
        auto* sl = DL->getStructLayout(st);
        J.attribute("size", (int64_t)sl->getSizeInBytes());
        J.attribute("packed", st->isPacked());
        J.attributeArray("off", [&] { for (unsigned k = 0; k < st->getNumElements(); k++) J.value((int64_t)sl->getElementOffset(k).getFixedValue()); });
        J.attributeArray("ty", [&] { for (auto* e : st->elements()) J.value(tyStr(e)); });
      });
    }
  });
  // debug-info composite types
  DebugInfoFinder F; F.processModule(*M);
  J.attributeObject("ditypes", [&] {
    std::set<std::string> seen;
    for (auto* t : F.types()) {
      auto* c = dyn_cast<DICompositeType>(t);
      if (!c || c->isForwardDecl()) continue;
      unsigned tag = c->getTag();
      if (tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_union_type && tag != dwarf::DW_TAG_enumeration_type) continue;
      std::string n = diName(c);
      std::string file = absFile(c->getFile());
      if (!inRepo(file)) continue;
      if (n.empty()) n = "(anon@" + std::string(sys::path::filename(file)) + ":" + std::to_string(c->getLine()) + ")";
      if (!seen.insert(n).second) continue;
      J.attributeObject(n, [&] {
        J.attribute("tag", (int64_t)tag); J.attribute("file", file); J.attribute("line", (int64_t)c->getLine());
        J.attribute("size", (int64_t)c->getSizeInBits() / 8);
        J.attributeArray("members", [&] {
          for (auto* e : c->getElements()) {
            if (auto* en = dyn_cast<DIEnumerator>(e)) { J.value(json::Array{en->getName().str(), en->getValue().getSExtValue()}); continue; }
            auto* d = dyn_cast<DIDerivedType>(e);
            if (!d) continue;
            if (d->getTag() == dwarf::DW_TAG_member) {
              bool st = d->isStaticMember();
              J.value(json::Array{d->getName().str(), st ? -1 : (int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits(), diTypeName(d->getBaseType()), d->isBitField() ? (int64_t)d->getOffsetInBits() : -1});
            } else if (d->getTag() == dwarf::DW_TAG_inheritance) {
              J.value(json::Array{"<base>", (int64_t)d->getOffsetInBits() / 8, 0, diTypeName(d->getBaseType()), -1});
            }
          }
        });
      });
    }
  });
  J.objectEnd();
  return 0;
}
