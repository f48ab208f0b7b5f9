// irtool: whole-program LLVM IR -> JSON facts for the rule engine.
//
//   irtool whole.bc request.json out.json
//
// The IR is only inspected and normalised (SROA, early-cse, inlining of the
// project's own helpers into a requested root); nothing is executed.
//
// request.json: {"all": bool,            dump every repo function, not inlined
//                "src": "/repo/src",     what counts as project code
//                "roots":[{"id":..,"fn":"<regex on demangled name>",
//                          "keep":["regex",..],"depth":N,"inline":bool}]}
#include "llvm/ADT/APFloat.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/InlineCost.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;

static std::string SRC = "/repo/src";
//functions of generated sources (their #line directives hide the file) that a request asks for
static std::string EXTRA;
static std::map<std::string, DICompositeType*> DITypes;

static std::string dem(StringRef s) { return demangle(s.str()); }

static std::string fileOf(const DIScope* sc)
{
    if(!sc) return "";
    std::string d = sc->getDirectory().str(), f = sc->getFilename().str();
    if(!f.empty() && f[0] == '/') return f;
    return d+"/"+f;
}

static bool isRepo(const Function& F)
{
    DISubprogram* sp = F.getSubprogram();
    if(!sp) return false;
    std::string f = fileOf(sp->getFile());
    if(!EXTRA.empty() && Regex(EXTRA).match(dem(F.getName()))) return true;
    return StringRef(f).starts_with(SRC) || StringRef(f).ends_with("/tool/drive.cpp");
}

//scoped name of a DI scope
static std::string scoped(const DIScope* s)
{
    std::string r;
    while(s)
    {
        if(isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
        std::string n = s->getName().str();
        if(!n.empty())
            r = r.empty()?n:n+"::"+r;
        s = s->getScope();
    }
    return r;
}

static std::string structKey(StringRef n)
{
    //class.std::stack.123 -> std::stack  (llvm names)
    StringRef k = n;
    if(k.starts_with("class.")) k = k.drop_front(6);
    else if(k.starts_with("struct.")) k = k.drop_front(7);
    else if(k.starts_with("union.")) k = k.drop_front(6);
    //strip link-time suffix
    size_t dot = k.rfind('.');
    if(dot != StringRef::npos)
    {
        StringRef suf = k.drop_front(dot+1);
        unsigned long long x;
        if(!suf.getAsInteger(10, x)) k = k.take_front(dot);
        dot = k.rfind('.');
        if(dot != StringRef::npos && k.drop_front(dot+1) == "base") k = k.take_front(dot);
    }
    return k.str();
}

static DICompositeType* diOf(StringRef llvmName)
{
    std::string k = structKey(llvmName);
    auto it = DITypes.find(k);
    return it == DITypes.end()?nullptr:it->second;
}

static const DIType* strip(const DIType* t)
{
    while(t)
    {
        auto* d = dyn_cast<DIDerivedType>(t);
        if(!d) return t;
        switch(d->getTag())
        {
            case dwarf::DW_TAG_typedef:
            case dwarf::DW_TAG_const_type:
            case dwarf::DW_TAG_volatile_type:
                t = d->getBaseType();
                break;
            default:
                return t;
        }
    }
    return t;
}

static std::string tyName(const DIType* t)
{
    if(!t) return "void";
    if(auto* d = dyn_cast<DIDerivedType>(t))
    {
        switch(d->getTag())
        {
            case dwarf::DW_TAG_pointer_type: return tyName(d->getBaseType())+"*";
            case dwarf::DW_TAG_reference_type: return tyName(d->getBaseType())+"&";
            case dwarf::DW_TAG_rvalue_reference_type: return tyName(d->getBaseType())+"&&";
            case dwarf::DW_TAG_const_type: return "const "+tyName(d->getBaseType());
            case dwarf::DW_TAG_volatile_type: return "volatile "+tyName(d->getBaseType());
            case dwarf::DW_TAG_typedef: return d->getName().str();
            default: return d->getName().str();
        }
    }
    if(auto* c = dyn_cast<DICompositeType>(t))
    {
        if(c->getTag() == dwarf::DW_TAG_array_type)
        {
            std::string r = tyName(c->getBaseType());
            for(auto* e : c->getElements())
                if(auto* sr = dyn_cast<DISubrange>(e))
                {
                    auto cnt = sr->getCount();
                    if(auto* ci = dyn_cast_if_present<ConstantInt*>(cnt))
                        r += "["+std::to_string(ci->getSExtValue())+"]";
                    else
                        r += "[]";
                }
            return r;
        }
        return scoped(c);
    }
    return t->getName().str();
}

//find the member name of DI composite c at byte offset off
static std::string memberAt(const DICompositeType* c, uint64_t off)
{
    if(!c) return "";
    for(auto* e : c->getElements())
        if(auto* d = dyn_cast<DIDerivedType>(e))
        {
            if(d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue;
            if(d->getOffsetInBits()/8 == off) return d->getName().str();
        }
    return "";
}
static bool inheritsAt(const DICompositeType* c, uint64_t off)
{
    if(!c) return false;
    for(auto* e : c->getElements())
        if(auto* d = dyn_cast<DIDerivedType>(e))
            if(d->getTag() == dwarf::DW_TAG_inheritance && d->getOffsetInBits()/8 == off)
                return true;
    return false;
}

struct Dumper
{
    Module& M;
    const DataLayout& DL;
    json::OStream& J;
    std::map<const Value*, int> ids;
    Dumper(Module& m, json::OStream& j):M(m), DL(m.getDataLayout()), J(j) {}

    void cstring(const GlobalVariable* g)
    {
        if(g->hasInitializer())
            if(auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer()))
                if(cd->isString())
                {
                    StringRef s = cd->getAsString();
                    if(!s.empty() && s.back() == 0) s = s.drop_back();
                    J.attribute("str", json::fixUTF8(s));
                }
    }

    void gepFields(const GEPOperator* g)
    {
        //path of named fields + variable indices
        const MDNode* names = nullptr;
        unsigned step = 0;
        if(auto* gi = dyn_cast<GetElementPtrInst>(g)) names = gi->getMetadata("pth");
        Type* cur = g->getSourceElementType();
        J.attributeArray("path", [&] {
            auto it = g->idx_begin();
            //first index: array over source type
            if(auto* ci = dyn_cast<ConstantInt>(*it))
            {
                if(!ci->isZero())
                    J.value(json::Array{"+", ci->getSExtValue()});
            }
            else
            {
                J.array([&] { J.value("*"); operand(*it); });
            }
            ++it;
            for(; it != g->idx_end(); ++it)
            {
                if(auto* st = dyn_cast<StructType>(cur))
                {
                    unsigned k = cast<ConstantInt>(*it)->getZExtValue();
                    uint64_t off = DL.getStructLayout(st)->getElementOffset(k);
                    std::string cls = st->hasName()?structKey(st->getName()):"";
                    DICompositeType* di = st->hasName()?diOf(st->getName()):nullptr;
                    std::string m = memberAt(di, off);
                    Type* next = st->getElementType(k);
                    if(names && 2*step+1<names->getNumOperands())
                    {
                        cls = cast<MDString>(names->getOperand(2*step))->getString().str();
                        m = cast<MDString>(names->getOperand(2*step+1))->getString().str();
                    }
                    step++;
                    bool base = m.empty();
                    (void)di;
                    if(base)
                        J.value(json::Array{"b", cls, (int64_t)k});
                    else
                        J.value(json::Array{"f", cls, m});
                    cur = next;
                }
                else
                {
                    if(auto* ci = dyn_cast<ConstantInt>(*it))
                        J.value(json::Array{"i", ci->getSExtValue()});
                    else
                        J.array([&] { J.value("*"); operand(*it); });
                    cur = GetElementPtrInst::getTypeAtIndex(cur, *it);
                }
            }
        });
        std::string s;
        raw_string_ostream os(s);
        g->getSourceElementType()->print(os, false, true);
        J.attribute("sty", os.str());
        J.attribute("esz", (int64_t)DL.getTypeAllocSize(g->getResultElementType()).getFixedValue());
        //byte offset: constant part and stride of every variable index
        {
            unsigned w = DL.getIndexSizeInBits(g->getPointerAddressSpace());
            MapVector<Value*, APInt> var;
            APInt k(w, 0);
            if(g->collectOffset(DL, w, var, k))
            {
                J.attribute("off", k.getSExtValue());
                if(!var.empty())
                    J.attributeArray("voff", [&] {
                        for(auto& p : var)
                            J.array([&] { J.value(p.second.getSExtValue()); operand(p.first); });
                    });
            }
        }
    }

    void operand(const Value* v)
    {
        if(auto* c = dyn_cast<ConstantInt>(v))
        {
            if(c->getBitWidth() <= 64)
                J.value(json::Array{"c", c->getSExtValue(), (int64_t)c->getBitWidth()});
            else
                J.value(json::Array{"c?", 0});
            return;
        }
        if(auto* c = dyn_cast<ConstantFP>(v))
        {
            double d = c->getType()->isX86_FP80Ty()?0.0:(c->getType()->isFloatTy()?(double)c->getValueAPF().convertToFloat():c->getValueAPF().convertToDouble());
            if(std::isfinite(d)) J.value(json::Array{"d", d});
            else J.value(json::Array{"d", std::isnan(d)?"nan":(d>0?"inf":"-inf")});
            return;
        }
        if(isa<ConstantPointerNull>(v)) { J.value(json::Array{"null"}); return; }
        if(isa<UndefValue>(v)) { J.value(json::Array{"undef"}); return; }
        if(auto* f = dyn_cast<Function>(v)) { J.value(json::Array{"fn", dem(f->getName()), f->getName()}); return; }
        if(auto* g = dyn_cast<GlobalVariable>(v)) { J.value(json::Array{"g", dem(g->getName()), g->getName()}); return; }
        if(auto* a = dyn_cast<Argument>(v)) { J.value(json::Array{"a", (int64_t)a->getArgNo()}); return; }
        if(auto* ce = dyn_cast<ConstantExpr>(v))
        {
            if(auto* g = dyn_cast<GEPOperator>(ce))
            {
                J.array([&] {
                    J.value("cegep");
                    operand(g->getPointerOperand());
                    J.object([&] { gepFields(g); });
                });
                return;
            }
            J.array([&] {
                J.value("ce");
                J.value(ce->getOpcodeName());
                for(auto& o : ce->operands()) operand(o.get());
            });
            return;
        }
        if(isa<ConstantAggregateZero>(v)) { J.value(json::Array{"zero"}); return; }
        if(auto* cd = dyn_cast<ConstantDataSequential>(v))
        {
            J.array([&] {
                J.value("vec");
                for(unsigned i = 0; i<cd->getNumElements(); i++) operand(cd->getElementAsConstant(i));
            });
            return;
        }
        if(isa<Instruction>(v)) { J.value(json::Array{"v", ids.count(v)?ids[v]:-1}); return; }
        if(isa<BasicBlock>(v)) { J.value(json::Array{"bb"}); return; }
        if(auto* mv = dyn_cast<MetadataAsValue>(v))
        {
            if(auto* ms = dyn_cast<MDString>(mv->getMetadata())) J.value(json::Array{"md", ms->getString()});
            else J.value(json::Array{"md", ""});
            return;
        }
        J.value(json::Array{"?"});
    }

    std::string ty(Type* t)
    {
        std::string s;
        raw_string_ostream os(s);
        t->print(os, false, true);
        return os.str();
    }

    void loc(const Instruction& I)
    {
        if(auto* l = I.getDebugLoc().get())
        {
            J.attributeArray("loc", [&] {
                J.value(fileOf(l->getScope()->getFile()));
                J.value((int64_t)l->getLine());
                std::string via;
                const DILocation* in = l->getInlinedAt();
                if(in)
                {
                    J.value(l->getScope()->getSubprogram()?scoped(l->getScope()->getSubprogram()):"");
                    for(; in; in = in->getInlinedAt())
                    {
                        const DISubprogram* sp = in->getScope()->getSubprogram();
                        J.value((sp?scoped(sp):std::string("?"))+":"+std::to_string(in->getLine()));
                    }
                }
            });
        }
    }

    void func(Function& F, StringRef id, StringRef only = "")
    {
        ids.clear();
        int n = 0;
        std::map<const BasicBlock*, int> bbs;
        for(auto& B : F) bbs[&B] = (int)bbs.size();
        for(auto& B : F) for(auto& I : B) ids[&I] = n++;
        J.object([&] {
            J.attribute("id", id);
            J.attribute("name", dem(F.getName()));
            J.attribute("link", F.getName());
            J.attribute("internal", F.hasLocalLinkage());
            J.attribute("ret", ty(F.getReturnType()));
            if(auto* sp = F.getSubprogram())
            {
                J.attribute("scoped", scoped(sp));
                J.attribute("file", fileOf(sp->getFile()));
                J.attribute("line", (int64_t)sp->getLine());
                if(auto* st = sp->getType())
                {
                    J.attributeArray("ditypes", [&] {
                        for(auto* t : st->getTypeArray()) J.value(tyName(t));
                    });
                }
                J.attribute("virtual", sp->getVirtuality() != 0);
                J.attribute("artificial", (bool)sp->isArtificial());
                {
                    const DISubprogram* dc = sp->getDeclaration() ? sp->getDeclaration() : sp;
                    unsigned acc = dc->getFlags() & DINode::FlagAccessibility;
                    bool pub = acc == DINode::FlagPublic;
                    if(!acc)
                    {
                        auto* ct = dyn_cast_or_null<DICompositeType>(dc->getScope());
                        pub = !ct || ct->getTag() != dwarf::DW_TAG_class_type;
                    }
                    J.attribute("public", pub);
                }
            }
            std::map<unsigned, std::string> argn;
            J.attributeArray("args", [&] {
                for(auto& a : F.args())
                    J.object([&] {
                        J.attribute("name", a.getName());
                        J.attribute("ty", ty(a.getType()));
                        if(a.hasStructRetAttr()) J.attribute("sret", true);
                        if(a.hasByValAttr()) J.attribute("byval", true);
                    });
            });
            J.attributeArray("blocks", [&] {
                for(auto& B : F)
                    J.object([&] {
                        J.attribute("n", bbs[&B]);
                        J.attributeArray("succ", [&] { for(auto* s : successors(&B)) J.value(bbs[s]); });
                        J.attributeArray("ins", [&] {
                            for(auto& I : B) inst(I, bbs);
                        });
                    });
            });
        });
    }

    void inst(Instruction& I, std::map<const BasicBlock*, int>& bbs)
    {
        if(isa<DbgInfoIntrinsic>(I)) return;
        if(auto* ii = dyn_cast<IntrinsicInst>(&I))
            if(ii->isAssumeLikeIntrinsic() && ii->getIntrinsicID() != Intrinsic::type_test) return;
        J.object([&] {
            J.attribute("i", ids[&I]);
            J.attribute("op", I.getOpcodeName());
            J.attribute("ty", ty(I.getType()));
            loc(I);
            if(auto* l = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue());
            if(auto* l = dyn_cast<StoreInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(l->getValueOperand()->getType()).getFixedValue());
            if(auto* md = I.getMetadata("fld")) J.attribute("fld", cast<MDString>(md->getOperand(0))->getString());
            for(int k = 0; k<6; k++)
                if(auto* md = I.getMetadata("fld"+std::to_string(k))) J.attribute("fld"+std::to_string(k), cast<MDString>(md->getOperand(0))->getString());
            if(auto* c = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
            if(auto* p = dyn_cast<PHINode>(&I))
            {
                J.attributeArray("in", [&] {
                    for(unsigned k = 0; k<p->getNumIncomingValues(); k++)
                        J.array([&] { J.value(bbs[p->getIncomingBlock(k)]); operand(p->getIncomingValue(k)); });
                });
                return;
            }
            if(auto* a = dyn_cast<AllocaInst>(&I))
            {
                J.attribute("var", a->getName());
                J.attribute("aty", ty(a->getAllocatedType()));
                J.attribute("asz", (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue());
                if(!isa<ConstantInt>(a->getArraySize())) J.attribute("vla", true);
                for(auto* u : findDbgDeclares(a))
                    if(auto* v = u->getVariable()) { J.attribute("dvar", v->getName()); J.attribute("dty", tyName(v->getType())); break; }
                return;
            }
            if(auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                J.attributeArray("ops", [&] { operand(g->getPointerOperand()); });
                gepFields(cast<GEPOperator>(g));
                return;
            }
            if(auto* cb = dyn_cast<CallBase>(&I))
            {
                if(Function* f = cb->getCalledFunction())
                {
                    J.attribute("callee", dem(f->getName()));
                    J.attribute("link", f->getName());
                    J.attribute("def", !f->isDeclaration());
                    J.attribute("repo", isRepo(*f));
                    if(f->doesNotReturn() || cb->doesNotReturn()) J.attribute("noreturn", true);
                    if(auto* sp = f->getSubprogram()) J.attribute("scoped", scoped(sp));
                }
                else
                {
                    J.attributeArray("fp", [&] { operand(cb->getCalledOperand()); });
                    virt(cb);
                }
                J.attributeArray("ops", [&] { for(auto& o : cb->args()) operand(o.get()); });
                J.attribute("cty", ty(cb->getFunctionType()));
                J.attributeArray("sret", [&] { for(unsigned k = 0; k<cb->arg_size(); k++) if(cb->paramHasAttr(k, Attribute::StructRet)) J.value(k); });
                return;
            }
            if(auto* b = dyn_cast<BranchInst>(&I))
            {
                J.attributeArray("succ", [&] { for(auto* s : successors(b)) J.value(bbs[s]); });
                if(b->isConditional()) J.attributeArray("ops", [&] { operand(b->getCondition()); });
                return;
            }
            if(auto* s = dyn_cast<SwitchInst>(&I))
            {
                J.attributeArray("ops", [&] { operand(s->getCondition()); });
                J.attributeArray("cases", [&] {
                    for(auto& c : s->cases()) J.value(json::Array{c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()]});
                });
                J.attribute("default", bbs[s->getDefaultDest()]);
                return;
            }
            if(auto* e = dyn_cast<ExtractValueInst>(&I))
                J.attributeArray("idx", [&] { for(unsigned k : e->indices()) J.value(k); });
            if(auto* e = dyn_cast<InsertValueInst>(&I))
                J.attributeArray("idx", [&] { for(unsigned k : e->indices()) J.value(k); });
            J.attributeArray("ops", [&] { for(auto& o : I.operands()) operand(o.get()); });
        });
    }

    //virtual call: vtable load -> slot gep -> load
    void virt(CallBase* cb)
    {
        auto* ld = dyn_cast<LoadInst>(cb->getCalledOperand());
        if(!ld) return;
        Value* slotp = ld->getPointerOperand();
        int64_t slot = 0;
        Value* vt = slotp;
        if(auto* g = dyn_cast<GetElementPtrInst>(slotp))
        {
            if(g->getNumIndices() == 1 && isa<ConstantInt>(g->getOperand(1)))
            {
                slot = cast<ConstantInt>(g->getOperand(1))->getSExtValue();
                vt = g->getPointerOperand();
            }
        }
        auto* vtl = dyn_cast<LoadInst>(vt);
        if(!vtl) return;
        std::set<std::string> types;
        for(auto* u : vtl->users())
            if(auto* ii = dyn_cast<IntrinsicInst>(u))
                if(ii->getIntrinsicID() == Intrinsic::type_test)
                    if(auto* mv = dyn_cast<MetadataAsValue>(ii->getArgOperand(1)))
                        if(auto* ms = dyn_cast<MDString>(mv->getMetadata()))
                            types.insert(ms->getString().str());
        if(types.empty()) return;
        J.attributeObject("virt", [&] {
            J.attribute("slot", slot);
            J.attributeArray("types", [&] { for(auto& t : types) J.value(dem(t)); });
            J.attributeArray("targets", [&] {
                std::set<std::pair<std::string, std::string>> out;
                for(auto& G : M.globals())
                {
                    SmallVector<MDNode*, 4> mds;
                    G.getMetadata(LLVMContext::MD_type, mds);
                    for(auto* md : mds)
                    {
                        auto* ms = dyn_cast<MDString>(md->getOperand(1));
                        if(!ms || !types.count(ms->getString().str())) continue;
                        uint64_t off = mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue();
                        if(!G.hasInitializer()) continue;
                        auto* cs = dyn_cast<ConstantStruct>(G.getInitializer());
                        if(!cs || cs->getNumOperands() == 0) continue;
                        uint64_t elem = off/8+slot;
                        auto* arr = dyn_cast<ConstantArray>(cs->getOperand(0));
                        if(!arr || elem >= arr->getNumOperands()) continue;
                        auto* f = dyn_cast<Function>(arr->getOperand(elem)->stripPointerCasts());
                        if(f && f->getName() != "__cxa_pure_virtual") out.insert({f->getName().str(), dem(f->getName())});
                    }
                }
                for(auto& p : out) J.value(json::Array{p.second, p.first});
            });
        });
    }
};

static void collectTypes(Module& M)
{
    DebugInfoFinder dif;
    dif.processModule(M);
    for(auto* t : dif.types())
        if(auto* c = dyn_cast<DICompositeType>(t))
            if((c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type ||
                c->getTag() == dwarf::DW_TAG_union_type) && !c->isForwardDecl())
            {
                if(c->getName().empty()) continue;     //its scope would pass for the enclosing type
                std::string k = scoped(c);
                //C++ identified types print without template args in llvm names
                size_t lt = k.find('<');
                if(lt != std::string::npos) {
                    k = k.substr(0, lt);
                    if(DITypes.count(k)) continue;
                }
                DITypes[k] = c;
            }
    //C typedef'd anonymous structs
    for(auto* t : dif.types())
        if(auto* d = dyn_cast<DIDerivedType>(t))
            if(d->getTag() == dwarf::DW_TAG_typedef)
                if(auto* c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                    if(c->getName().empty() && !DITypes.count(d->getName().str())) DITypes[d->getName().str()] = c;
}

static void annotate(Module& M)
{
    //remember which named member each access touches: zero-offset GEPs are
    //folded away later, which would otherwise lose the first member's name
    for(auto& F : M)
        for(auto& I : instructions(F))
        {
            if(auto* g = dyn_cast<GetElementPtrInst>(&I))
            {
                //names of the struct steps, taken here because the linker may
                //merge structurally identical types afterwards
                SmallVector<Metadata*, 4> names;
                Type* cur = g->getSourceElementType();
                auto ix = g->idx_begin();
                for(++ix; ix != g->idx_end(); ++ix)
                {
                    if(auto* st = dyn_cast<StructType>(cur))
                    {
                        unsigned k = cast<ConstantInt>(*ix)->getZExtValue();
                        uint64_t off = M.getDataLayout().getStructLayout(st)->getElementOffset(k);
                        std::string cls = st->hasName()?structKey(st->getName()):"", m;
                        if(st->hasName()) m = memberAt(diOf(st->getName()), off);
                        names.push_back(MDString::get(M.getContext(), cls));
                        names.push_back(MDString::get(M.getContext(), m));
                        cur = st->getElementType(k);
                    }
                    else
                        cur = GetElementPtrInst::getTypeAtIndex(cur, *ix);
                }
                if(!names.empty()) g->setMetadata("pth", MDNode::get(M.getContext(), names));
            }
            Value* ptr = nullptr;
            if(auto* l = dyn_cast<LoadInst>(&I)) ptr = l->getPointerOperand();
            else if(auto* s = dyn_cast<StoreInst>(&I)) ptr = s->getPointerOperand();
            auto mark = [&](Value* v, const char* key) {
                auto* g = dyn_cast_or_null<GEPOperator>(v);
                if(!g || !g->hasAllConstantIndices()) return;
                Type* cur = g->getSourceElementType();
                std::string name;
                auto ix = g->idx_begin();
                for(++ix; ix != g->idx_end(); ++ix)
                {
                    if(auto* st = dyn_cast<StructType>(cur))
                    {
                        unsigned k = cast<ConstantInt>(*ix)->getZExtValue();
                        uint64_t off = M.getDataLayout().getStructLayout(st)->getElementOffset(k);
                        if(st->hasName())
                        {
                            std::string m = memberAt(diOf(st->getName()), off);
                            if(!m.empty()) name = structKey(st->getName())+"::"+m;
                        }
                        cur = st->getElementType(k);
                    }
                    else
                        cur = GetElementPtrInst::getTypeAtIndex(cur, *ix);
                }
                if(!name.empty()) I.setMetadata(key, MDNode::get(M.getContext(), MDString::get(M.getContext(), name)));
            };
            if(ptr) mark(ptr, "fld");
            if(auto* cb = dyn_cast<CallBase>(&I))
                for(unsigned k = 0; k<cb->arg_size() && k<6; k++)
                    mark(cb->getArgOperand(k), ("fld"+std::to_string(k)).c_str());
        }
}

static bool matchAny(std::vector<Regex>& rs, StringRef s)
{
    for(auto& r : rs) if(r.match(s)) return true;
    return false;
}

int main(int argc, char** argv)
{
    if(argc<4) return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    if(StringRef(argv[1]) == "--annotate")
    {
        auto A = parseIRFile(argv[2], err, ctx);
        if(!A) { err.print("irtool", errs()); return 2; }
        collectTypes(*A);
        annotate(*A);
        std::error_code aec;
        raw_fd_ostream ao(argv[3], aec);
        if(aec) return 2;
        WriteBitcodeToFile(*A, ao);
        return 0;
    }
    auto M = parseIRFile(argv[1], err, ctx);
    if(!M) { err.print("irtool", errs()); return 2; }
    auto buf = MemoryBuffer::getFile(argv[2]);
    if(!buf) return 2;
    auto req = json::parse((*buf)->getBuffer());
    if(!req) { errs()<<"bad request\n"; return 2; }
    auto* R = req->getAsObject();
    if(auto s = R->getString("src")) SRC = s->str();
    if(auto s = R->getString("generated")) EXTRA = s->str();

    collectTypes(*M);
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto merge = [&](Function& F) {
        for(auto it = F.begin(); it != F.end();)
        {
            BasicBlock* B = &*it++;
            MergeBlockIntoPredecessor(B);
        }
    };
    auto norm = [&](Function& F, bool cse) {
        merge(F);
        FAM.invalidate(F, PreservedAnalyses::none());
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(InstSimplifyPass());
        if(cse) FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstSimplifyPass());
        FPM.run(F, FAM);
        FAM.invalidate(F, PreservedAnalyses::none());
    };
    for(auto& F : *M)
    {
        if(F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        if(isRepo(F) || R->getBoolean("allnorm").value_or(false))
        {
            FunctionPassManager FPM;
            FPM.addPass(LowerInvokePass());
            FPM.run(F, FAM);
            removeUnreachableBlocks(F);
            FAM.invalidate(F, PreservedAnalyses::none());
        }
    }

    //C1/C2 constructor aliases etc. become plain direct calls
    for(auto it = M->alias_begin(); it != M->alias_end();)
    {
        GlobalAlias* a = &*it++;
        if(auto* f = dyn_cast<Function>(a->getAliasee()->stripPointerCasts())) a->replaceAllUsesWith(f);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec);
    if(ec) return 2;
    json::OStream J(os, 0);
    Dumper D(*M, J);
    J.objectBegin();
    //types
    J.attributeObject("types", [&] {
        for(auto& p : DITypes)
        {
            auto* c = p.second;
            std::string f = fileOf(c->getFile());
            if(!StringRef(f).starts_with(SRC)) continue;
            J.attributeObject(p.first, [&] {
                J.attribute("file", f);
                J.attribute("line", (int64_t)c->getLine());
                J.attribute("size", (int64_t)c->getSizeInBits()/8);
                J.attributeArray("bases", [&] {
                    for(auto* e : c->getElements())
                        if(auto* d = dyn_cast<DIDerivedType>(e))
                            if(d->getTag() == dwarf::DW_TAG_inheritance) J.value(tyName(d->getBaseType()));
                });
                J.attributeArray("fields", [&] {
                    for(auto* e : c->getElements())
                        if(auto* d = dyn_cast<DIDerivedType>(e))
                            if(d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                                J.value(json::Array{d->getName(), tyName(d->getBaseType()), (int64_t)d->getOffsetInBits()/8, (int64_t)d->getSizeInBits()/8, (int64_t)d->getLine()});
                });
            });
        }
    });
    //enumerations: name -> [[enumerator, value]]
    J.attributeObject("enums", [&] {
        std::map<std::string, const DICompositeType*> en;
        DebugInfoFinder dif;
        dif.processModule(*M);
        for(auto* t : dif.types())
        {
            const DICompositeType* c = dyn_cast<DICompositeType>(t);
            std::string n = t->getName().str();
            if(auto* d = dyn_cast<DIDerivedType>(t))
                if(d->getTag() == dwarf::DW_TAG_typedef) c = dyn_cast_or_null<DICompositeType>(d->getBaseType());
            if(!c || c->getTag() != dwarf::DW_TAG_enumeration_type || n.empty()) continue;
            if(!StringRef(fileOf(c->getFile())).starts_with(SRC)) continue;
            if(isa<DICompositeType>(t)) n = scoped(c);
            en[n] = c;
        }
        for(auto& p : en)
            J.attributeArray(p.first, [&] {
                for(auto* e : p.second->getElements())
                    if(auto* x = dyn_cast<DIEnumerator>(e))
                        J.value(json::Array{x->getName(), x->getValue().getSExtValue()});
            });
    });
    J.attributeArray("globals", [&] {
        for(auto& G : M->globals())
        {
            SmallVector<DIGlobalVariableExpression*, 1> gv;
            G.getDebugInfo(gv);
            J.object([&] {
                J.attribute("name", dem(G.getName()));
                J.attribute("link", G.getName());
                J.attribute("const", G.isConstant());
                J.attribute("decl", G.isDeclaration());
                J.attribute("ty", D.ty(G.getValueType()));
                J.attribute("tls", G.isThreadLocal());
                if(!gv.empty())
                {
                    auto* v = gv[0]->getVariable();
                    J.attribute("file", fileOf(v->getFile()));
                    J.attribute("line", (int64_t)v->getLine());
                    J.attribute("dty", tyName(v->getType()));
                    J.attribute("scoped", scoped(v->getScope()));
                    J.attribute("infunc", v->getScope() && (isa<DISubprogram>(v->getScope()) || isa<DILexicalBlockBase>(v->getScope())));
                }
                D.cstring(&G);
                if(G.hasInitializer() && !gv.empty() && (StringRef(fileOf(gv[0]->getVariable()->getFile())).starts_with(SRC) || (!EXTRA.empty() && G.isConstant())))
                {
                    std::function<void(const Constant*)> init = [&](const Constant* c) {
                        if(auto* a = dyn_cast<ConstantAggregate>(c)) { J.array([&] { for(auto& o : a->operands()) init(cast<Constant>(o.get())); }); return; }
                        if(auto* a = dyn_cast<ConstantDataSequential>(c)) { J.array([&] { for(unsigned i = 0; i<a->getNumElements(); i++) init(a->getElementAsConstant(i)); }); return; }
                        D.operand(c);
                    };
                    J.attributeBegin("init");
                    init(G.getInitializer());
                    J.attributeEnd();
                }
            });
        }
    });
    J.attributeArray("declared", [&] {
        for(auto& F : *M) if(isRepo(F) && !F.isDeclaration()) J.value(dem(F.getName()));
    });
    J.attributeBegin("functions");
    J.arrayBegin();
    //tiny library helpers carry no meaning of their own: see through them everywhere
    Regex tiny("(^|[ &*])std::(__1::)?(min|max|swap|move|forward|abs|fabs|sqrt|ceil|floor|isnan|isinf|addressof|__addressof|pow|exp|cos|sin|tan|round)(<.*>)?\\(");
    for(auto& F : *M)
    {
        if(F.isDeclaration() || !isRepo(F)) continue;
        for(int round = 0; round<4; round++)
        {
            std::vector<CallBase*> work;
            for(auto& I : instructions(F))
                if(auto* cb = dyn_cast<CallBase>(&I))
                    if(Function* f = cb->getCalledFunction())
                        if(!f->isDeclaration() && !f->isVarArg() && !isRepo(*f) && tiny.match(dem(f->getName()))) work.push_back(cb);
            if(work.empty()) break;
            for(auto* cb : work) { InlineFunctionInfo ifi; InlineFunction(*cb, ifi); }
        }
    }
    //pristine copies for roots first need un-normalised callees: normalising callees is harmless
    bool all = R->getBoolean("all").value_or(false);
    for(auto& F : *M)
        if(!F.isDeclaration() && isRepo(F)) norm(F, false);
    if(all)
        for(auto& F : *M)
            if(!F.isDeclaration() && isRepo(F)) D.func(F, "");
    if(auto* roots = R->getArray("roots"))
        for(auto& rv : *roots)
        {
            auto* ro = rv.getAsObject();
            std::string id = ro->getString("id")->str();
            Regex fr(ro->getString("fn")->str());
            std::vector<Regex> keep, also;
            if(auto* k = ro->getArray("keep")) for(auto& s : *k) keep.emplace_back(s.getAsString()->str());
            if(auto* k = ro->getArray("also")) for(auto& s : *k) also.emplace_back(s.getAsString()->str());
            int depth = (int)ro->getInteger("depth").value_or(8);
            bool inl = ro->getBoolean("inline").value_or(true);
            std::vector<Function*> fs;
            for(auto& F : *M)
                if(!F.isDeclaration() && (isRepo(F)) && fr.match(dem(F.getName()))) fs.push_back(&F);
            for(auto* F : fs)
            {
                ValueToValueMapTy vm;
                Function* C = CloneFunction(F, vm);
                C->setName(F->getName()+".irclone");
                if(inl)
                {
                    //worklist of (call, chain)
                    std::map<const CallBase*, std::vector<Function*>> chain;
                    std::vector<CallBase*> work;
                    for(auto& I : instructions(C)) if(auto* cb = dyn_cast<CallBase>(&I)) { work.push_back(cb); chain[cb] = {F}; }
                    unsigned budget = 20000;
                    while(!work.empty())
                    {
                        CallBase* cb = work.back();
                        work.pop_back();
                        Function* f = cb->getCalledFunction();
                        if(!f || f->isDeclaration() || f->isVarArg()) continue;
                        std::string dn = dem(f->getName());
                        bool force = matchAny(also, dn);
                        if(!force && !isRepo(*f)) continue;
                        if(!force && matchAny(keep, dn)) continue;
                        std::vector<Function*> ch = chain[cb];
                        if((int)ch.size()>depth) continue;
                        if(std::find(ch.begin(), ch.end(), f) != ch.end()) continue;
                        if(C->getInstructionCount()>budget) continue;
                        ch.push_back(f);
                        InlineFunctionInfo ifi;
                        auto res = InlineFunction(*cb, ifi);
                        if(res.isSuccess())
                            for(auto* n : ifi.InlinedCallSites) { chain[n] = ch; work.push_back(n); }
                    }
                }
                removeUnreachableBlocks(*C);
                norm(*C, true);
                //fold constant branches, then clean dead blocks
                for(auto& B : *C) ConstantFoldTerminator(&B, true);
                removeUnreachableBlocks(*C);
                norm(*C, true);
                C->setSubprogram(C->getSubprogram());
                std::string nm = F->getName().str();
                D.func(*C, id);
                C->eraseFromParent();
            }
        }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    return 0;
}
