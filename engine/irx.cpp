// irx: exports a linked LLVM bitcode module (with debug info) as JSON facts.
// It executes nothing of the program: it only walks the compiler's typed
// intermediate representation and the debug-info type graph.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/APFloat.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string root_;
static std::string scoped(const DIScope* s, StringRef name) {
  std::string r = name.str();
  while (s) {
    if (auto* ns = dyn_cast<DINamespace>(s)) {
      if (!ns->getName().empty()) r = (ns->getName() + "::" + r).str();
      s = ns->getScope();
    } else if (auto* ct = dyn_cast<DICompositeType>(s)) {
      r = (ct->getName() + "::" + r).str();
      s = ct->getScope();
    } else break;
  }
  return r;
}
static std::string tyname(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return tyname(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return tyname(d->getBaseType()) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return tyname(d->getBaseType()) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + tyname(d->getBaseType());
      case dwarf::DW_TAG_typedef: return tyname(d->getBaseType());
      default: return tyname(d->getBaseType());
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return tyname(c->getBaseType()) + "[]";
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + scoped(c->getScope(), c->getName());
    return scoped(c->getScope(), c->getName());
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}
static std::string relfile(const DIFile* f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (n.empty() || n[0] != '/') n = f->getDirectory().str() + "/" + n;
  return n;
}
static std::string structName(StructType* st) {
  if (!st->hasName()) return "";
  std::string n = st->getName().str();
  for (const char* p : {"class.", "struct.", "union."})
    if (StringRef(n).starts_with(p)) { n = n.substr(strlen(p)); break; }
  // strip ".base" and numeric uniquifiers
  while (true) {
    size_t d = n.rfind('.');
    if (d == std::string::npos) break;
    std::string suf = n.substr(d + 1);
    bool num = !suf.empty() && suf.find_first_not_of("0123456789") == std::string::npos;
    if (num || suf == "base") n = n.substr(0, d); else break;
  }
  return n;
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  root_ = argv[2];
  const DataLayout& DL = M->getDataLayout();
  DebugInfoFinder DIF; DIF.processModule(*M);
  json::OStream J(outs());
  J.objectBegin();

  // ---- types
  std::map<std::string, const DICompositeType*> classes;
  std::map<std::string, const DICompositeType*> enums;
  for (auto* t : DIF.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    if (c->isForwardDecl()) continue;
    std::string n = scoped(c->getScope(), c->getName());
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) enums.emplace(n, c);
    else if (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) {
      if (StringRef(relfile(c->getFile())).starts_with(root_)) classes.emplace(n, c);
    }
  }
  J.attributeObject("enums", [&] {
    for (auto& e : enums) {
      if (!StringRef(relfile(e.second->getFile())).starts_with(root_)) continue;
      J.attributeArray(e.first, [&] {
        for (auto* el : e.second->getElements())
          if (auto* en = dyn_cast_or_null<DIEnumerator>(el))
            J.array([&] { J.value(en->getName()); J.value(en->getValue().getSExtValue()); });
      });
    }
  });
  J.attributeObject("classes", [&] {
    for (auto& c : classes) {
      bool isStruct = c.second->getTag() == dwarf::DW_TAG_structure_type;
      J.attributeObject(c.first, [&] {
        J.attribute("file", relfile(c.second->getFile()));
        J.attribute("line", (int64_t)c.second->getLine());
        J.attribute("struct", isStruct);
        J.attributeArray("bases", [&] {
          for (auto* el : c.second->getElements())
            if (auto* d = dyn_cast_or_null<DIDerivedType>(el))
              if (d->getTag() == dwarf::DW_TAG_inheritance) J.value(tyname(d->getBaseType()));
        });
        auto acc = [&](DINode::DIFlags f) -> const char* {
          switch (f & DINode::FlagAccessibility) {
            case DINode::FlagPublic: return "public";
            case DINode::FlagProtected: return "protected";
            case DINode::FlagPrivate: return "private";
            default: return isStruct ? "public" : "private";
          }
        };
        J.attributeArray("members", [&] {
          for (auto* el : c.second->getElements())
            if (auto* d = dyn_cast_or_null<DIDerivedType>(el))
              if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
                J.object([&] {
                  J.attribute("name", d->getName());
                  J.attribute("off", (int64_t)(d->getOffsetInBits() / 8));
                  J.attribute("type", tyname(d->getBaseType()));
                  J.attribute("access", acc(d->getFlags()));
                  J.attribute("line", (int64_t)d->getLine());
                });
              }
        });
        J.attributeArray("methods", [&] {
          for (auto* el : c.second->getElements())
            if (auto* s = dyn_cast_or_null<DISubprogram>(el)) {
              J.object([&] {
                J.attribute("name", s->getName());
                J.attribute("link", s->getLinkageName());
                J.attribute("access", acc(s->getFlags()));
                J.attribute("virtual", s->getVirtuality() != 0);
                J.attribute("pure", s->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual);
                J.attribute("deleted", s->isDeleted());
                J.attribute("artificial", s->isArtificial());
                J.attribute("line", (int64_t)s->getLine());
                J.attributeArray("types", [&] {
                  if (auto* st = s->getType())
                    for (auto* t : st->getTypeArray()) J.value(tyname(t));
                });
              });
            }
        });
      });
    }
  });
  // ---- struct layouts
  J.attributeObject("structs", [&] {
    std::set<std::string> seen;
    for (StructType* st : M->getIdentifiedStructTypes()) {
      if (st->isOpaque()) continue;
      if (!seen.insert(st->getName().str()).second) continue;
      const StructLayout* L = DL.getStructLayout(st);
      J.attributeObject(st->getName(), [&] {
        J.attribute("name", structName(st));
        J.attribute("size", (int64_t)L->getSizeInBytes());
        J.attributeArray("elems", [&] {
          for (unsigned i = 0; i < st->getNumElements(); ++i)
            J.array([&] {
              J.value((int64_t)L->getElementOffset(i));
              std::string s; raw_string_ostream os(s);
              st->getElementType(i)->print(os, false, true);
              J.value(os.str());
            });
        });
      });
    }
  });
  // ---- globals
  J.attributeArray("globals", [&] {
    for (GlobalVariable& g : M->globals()) {
      J.object([&] {
        J.attribute("name", g.getName());
        J.attribute("dem", demangle(g.getName().str()));
        J.attribute("const", g.isConstant());
        J.attribute("decl", g.isDeclaration());
        J.attribute("tls", g.isThreadLocal());
        J.attribute("internal", g.hasLocalLinkage());
        SmallVector<DIGlobalVariableExpression*, 1> gv; g.getDebugInfo(gv);
        if (!gv.empty()) {
          J.attribute("file", relfile(gv[0]->getVariable()->getFile()));
          J.attribute("line", (int64_t)gv[0]->getVariable()->getLine());
          J.attribute("type", tyname(gv[0]->getVariable()->getType()));
        }
        if (g.hasInitializer()) {
          Constant* c = g.getInitializer();
          if (g.getName().starts_with("_ZTV")) {
            J.attributeArray("vtable", [&] {
              if (auto* s = dyn_cast<ConstantStruct>(c))
                if (auto* a = dyn_cast<ConstantArray>(s->getOperand(0)))
                  for (auto& o : a->operands()) {
                    if (auto* f = dyn_cast<Function>(o->stripPointerCastsAndAliases())) J.value(f->getName());
                    else J.value("");
                  }
            });
          } else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            if (cd->isString()) J.attribute("str", json::fixUTF8(cd->getAsString()));
            else if (cd->getElementType()->isDoubleTy())
              J.attributeArray("arr", [&]{ for (unsigned i=0;i<cd->getNumElements();++i) J.value(cd->getElementAsDouble(i)); });
            else if (cd->getElementType()->isIntegerTy())
              J.attributeArray("arr", [&]{ for (unsigned i=0;i<cd->getNumElements();++i) J.value((int64_t)cd->getElementAsInteger(i)); });
          } else if (auto* ca = dyn_cast<ConstantArray>(c)) {
            (void)ca;
          } else if (auto* ci = dyn_cast<ConstantInt>(c)) J.attribute("ival", ci->getSExtValue());
          else if (auto* cf = dyn_cast<ConstantFP>(c)) J.attribute("fval", cf->getValueAPF().convertToDouble());
        }
      });
    }
  });

  // ---- functions
  J.attributeArray("functions", [&] {
    for (Function& F : *M) {
      if (F.isIntrinsic()) continue;
      DISubprogram* sp = F.getSubprogram();
      std::string file = sp ? relfile(sp->getFile()) : "";
      std::string dem = demangle(F.getName().str());
      bool inRepo = StringRef(file).starts_with(root_);
      // scope class
      std::string cls;
      if (sp) {
        const DIScope* s = sp->getScope();
        if (auto* d = sp->getDeclaration()) s = d->getScope();
        if (auto* ct = dyn_cast_or_null<DICompositeType>(s)) cls = scoped(ct->getScope(), ct->getName());
      }
      J.object([&] {
        J.attribute("name", F.getName());
        J.attribute("dem", dem);
        J.attribute("file", file);
        J.attribute("line", (int64_t)(sp ? sp->getLine() : 0));
        J.attribute("cls", cls);
        J.attribute("internal", F.hasLocalLinkage());
        J.attribute("decl", F.isDeclaration());
        J.attribute("repo", inRepo);
        if (F.isDeclaration()) return;
        if (!inRepo && !(sp == nullptr)) return;
        if (sp) {
          J.attributeArray("types", [&] {
            if (auto* st = sp->getType()) for (auto* t : st->getTypeArray()) J.value(tyname(t));
          });
        }
        DenseMap<const Value*, int> id; int n = 0;
        for (auto& a : F.args()) id[&a] = n++;
        DenseMap<const BasicBlock*, int> bid; int bn = 0;
        for (auto& b : F) { bid[&b] = bn++; for (auto& i : b) id[&i] = n++; }
        J.attribute("nvals", (int64_t)n);
        J.attributeArray("args", [&] {
          for (auto& a : F.args()) J.object([&] {
            J.attribute("id", (int64_t)id[&a]);
            J.attribute("name", a.getName());
            std::string s; raw_string_ostream os(s); a.getType()->print(os);
            J.attribute("ty", os.str());
            J.attribute("sret", a.hasStructRetAttr());
            if (a.hasByValAttr()) J.attribute("byval", true);
          });
        });
        auto tystr = [&](Type* t) { std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str(); };
        std::function<void(const Value*)> opnd;
        std::function<void(const GEPOperator*)> gepsteps = [&](const GEPOperator* g) {
          J.array([&] {
            bool first = true;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
              Value* ix = it.getOperand();
              if (StructType* st = it.getStructTypeOrNull()) {
                J.array([&] { J.value("S"); J.value(st->hasName() ? st->getName() : "");
                  J.value((int64_t)cast<ConstantInt>(ix)->getZExtValue()); });
              } else {
                auto* ci = dyn_cast<ConstantInt>(ix);
                if (first && ci && ci->isZero()) { first = false; continue; }
                J.array([&] { J.value(first ? "P" : "A"); opnd(ix); });
              }
              first = false;
            }
          });
        };
        opnd = [&](const Value* v) {
          J.array([&] {
            if (auto* ci = dyn_cast<ConstantInt>(v)) { J.value("i"); 
              if (ci->getBitWidth()==1) J.value((int64_t)ci->getZExtValue()); else
              J.value(ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0); J.value((int64_t)ci->getBitWidth()); }
            else if (auto* cf = dyn_cast<ConstantFP>(v)) { J.value("f");
              SmallString<32> s; cf->getValueAPF().toString(s); J.value(s.str()); }
            else if (isa<ConstantPointerNull>(v)) J.value("n");
            else if (isa<UndefValue>(v)) J.value("u");
            else if (isa<ConstantAggregateZero>(v)) J.value("z");
            else if (auto* g = dyn_cast<GlobalValue>(isa<GlobalValue>(v) ? v->stripPointerCastsAndAliases() : v)) { J.value("g"); J.value(g->getName()); }
            else if (auto* ce = dyn_cast<ConstantExpr>(v)) {
              if (auto* ge = dyn_cast<GEPOperator>(ce)) { J.value("ge"); opnd(ge->getPointerOperand()); gepsteps(ge); }
              else { J.value("ce"); J.value(ce->getOpcodeName()); opnd(ce->getOperand(0)); }
            }
            else if (auto it = id.find(v); it != id.end()) { J.value("v"); J.value((int64_t)it->second); }
            else if (isa<BasicBlock>(v)) { J.value("b"); J.value((int64_t)bid[cast<BasicBlock>(v)]); }
            else { J.value("x"); }
          });
        };
        // names of local variables from dbg intrinsics
        J.attributeArray("vars", [&] {
          for (auto& I : instructions(F))
            if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
              Value* v = dv->getVariableLocationOp(0);
              if (!v) continue;
              if (isa<UndefValue>(v)) continue;
              if (auto it = id.find(v); it != id.end())
                J.array([&] { J.value((int64_t)it->second); J.value(dv->getVariable()->getName()); J.value(tyname(dv->getVariable()->getType())); });
            }
        });
        J.attributeArray("blocks", [&] {
          for (auto& b : F) {
            if (b.isLandingPad()) { J.array([&]{}); continue; }
            J.array([&] {
              for (auto& I : b) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I))
                  if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
                J.object([&] {
                  J.attribute("id", (int64_t)id[&I]);
                  J.attribute("op", isa<InvokeInst>(&I) ? "call" : I.getOpcodeName());
                  if (DILocation* dl = I.getDebugLoc()) { while (dl->getInlinedAt()) dl = dl->getInlinedAt(); J.attribute("l", (int64_t)dl->getLine()); }
                  J.attribute("ty", tystr(I.getType()));
                  if (auto* a = dyn_cast<AllocaInst>(&I)) {
                    J.attribute("aty", tystr(a->getAllocatedType())); J.attribute("n", a->getName());
                  } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    J.attributeArray("o", [&] { opnd(g->getPointerOperand()); });
                    J.attributeBegin("s"); gepsteps(cast<GEPOperator>(g)); J.attributeEnd();
                    J.attribute("sty", tystr(g->getSourceElementType()));
                  } else if (auto* c = dyn_cast<CallBase>(&I)) {
                    J.attributeBegin("f"); 
                    Value* cv = c->getCalledOperand()->stripPointerCastsAndAliases();
                    if (auto* f = dyn_cast<Function>(cv)) J.value(f->getName());
                    else opnd(c->getCalledOperand());
                    J.attributeEnd();
                    J.attributeArray("o", [&] { for (auto& a : c->args()) opnd(a); });
                    if (c->hasStructRetAttr()) J.attribute("sret", true);
                    if (auto* iv = dyn_cast<InvokeInst>(c)) J.attribute("next", (int64_t)bid[iv->getNormalDest()]);
                  } else if (auto* p = dyn_cast<PHINode>(&I)) {
                    J.attributeArray("o", [&] { for (auto& v : p->incoming_values()) opnd(v); });
                    J.attributeArray("in", [&] { for (auto* x : p->blocks()) J.value((int64_t)bid[x]); });
                  } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                    if (br->isConditional()) J.attributeArray("o", [&] { opnd(br->getCondition()); });
                    J.attributeArray("t", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); ++k) J.value((int64_t)bid[br->getSuccessor(k)]); });
                  } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    J.attributeArray("o", [&] { opnd(sw->getCondition()); });
                    J.attribute("def", (int64_t)bid[sw->getDefaultDest()]);
                    J.attributeArray("cases", [&] { for (auto& cs : sw->cases()) J.array([&] {
                      J.value(cs.getCaseValue()->getSExtValue()); J.value((int64_t)bid[cs.getCaseSuccessor()]); }); });
                  } else {
                    if (auto* cmp = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(cmp->getPredicate()));
                    J.attributeArray("o", [&] { for (auto& v : I.operands()) opnd(v); });
                    if (isa<StoreInst>(&I)) J.attribute("vty", tystr(I.getOperand(0)->getType()));
                    if (auto* ev = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix", [&]{ for (auto x : ev->indices()) J.value((int64_t)x); });
                    if (auto* iv = dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix", [&]{ for (auto x : iv->indices()) J.value((int64_t)x); });
                  }
                });
              }
            });
          }
        });
      });
    }
  });
  J.objectEnd();
  outs() << "\n";
  return 0;
}
