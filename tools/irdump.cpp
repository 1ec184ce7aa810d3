// Dumps LLVM bitcode/IR as line-based JSON for the abstract interpreter (nsa/).
// Pure translation: every instruction, operand, type layout (via DataLayout),
// debug location and global initializer; nothing is evaluated here.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/IR/Verifier.h>
#include <map>
#include <string>
using namespace llvm;

static const DataLayout* DL;
static std::string esc(StringRef s) {
	std::string r = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static std::string tyS(Type* t) {
	if(t->isVoidTy()) return "\"void\"";
	if(t->isIntegerTy()) return "\"i" + std::to_string(t->getIntegerBitWidth()) + "\"";
	if(t->isFloatTy()) return "\"f32\"";
	if(t->isDoubleTy()) return "\"f64\"";
	if(t->isX86_FP80Ty()) return "\"f80\"";
	if(t->isPointerTy()) return "\"ptr\"";
	if(auto* s = dyn_cast<StructType>(t)) {
		if(s->isOpaque()) return "\"opaque\"";
		auto* l = DL->getStructLayout(s);
		std::string r = "[\"s\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + ",[";
		for(unsigned i = 0; i < s->getNumElements(); ++i) {
			if(i) r += ",";
			r += "[" + std::to_string((uint64_t) l->getElementOffset(i)) + "," + tyS(s->getElementType(i)) + "]";
		}
		return r + "]]";
	}
	if(auto* a = dyn_cast<ArrayType>(t))
		return "[\"a\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + "," + std::to_string(a->getNumElements()) +
			"," + tyS(a->getElementType()) + "," + std::to_string((uint64_t) DL->getTypeAllocSize(a->getElementType())) + "]";
	if(auto* a = dyn_cast<FixedVectorType>(t))
		return "[\"v\"," + std::to_string((uint64_t) DL->getTypeAllocSize(t)) + "," + std::to_string(a->getNumElements()) +
			"," + tyS(a->getElementType()) + "," + std::to_string((uint64_t) DL->getTypeStoreSize(a->getElementType())) + "]";
	std::string x; raw_string_ostream o(x); t->print(o);
	return esc("?" + o.str());
}
static uint64_t szOf(Type* t) { return t->isSized() ? (uint64_t) DL->getTypeStoreSize(t) : 0; }

static std::map<const Value*, int> ids;
static std::string val(const Value* v);
static std::string apS(const APInt& a) { SmallString<32> s; a.toStringSigned(s); return std::string(s); }

static std::string constant(const Constant* c) {
	if(auto* ci = dyn_cast<ConstantInt>(c)) return "[\"c\"," + tyS(c->getType()) + ",\"" + apS(ci->getValue()) + "\"]";
	if(auto* cf = dyn_cast<ConstantFP>(c)) {
		APFloat f = cf->getValueAPF();
		bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
		char b[64]; snprintf(b, 64, "%a", f.convertToDouble());
		return "[\"f\"," + tyS(c->getType()) + ",\"" + b + "\"]";
	}
	if(isa<ConstantPointerNull>(c)) return "[\"n\"]";
	if(isa<UndefValue>(c)) return "[\"u\"," + tyS(c->getType()) + "]";
	if(isa<ConstantAggregateZero>(c)) return "[\"z\"," + tyS(c->getType()) + "]";
	if(auto* g = dyn_cast<GlobalValue>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
	if(auto* d = dyn_cast<ConstantDataSequential>(c)) {
		std::string r = "[\"agg\"," + tyS(c->getType()) + ",[";
		for(unsigned i = 0; i < d->getNumElements(); ++i) { if(i) r += ","; r += constant(d->getElementAsConstant(i)); }
		return r + "]]";
	}
	if(isa<ConstantAggregate>(c)) {
		std::string r = "[\"agg\"," + tyS(c->getType()) + ",[";
		for(unsigned i = 0; i < c->getNumOperands(); ++i) { if(i) r += ","; r += constant(cast<Constant>(c->getOperand(i))); }
		return r + "]]";
	}
	if(auto* ce = dyn_cast<ConstantExpr>(c)) {
		if(auto* gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if(gep->accumulateConstantOffset(*DL, off))
				return "[\"gep\"," + val(gep->getPointerOperand()) + "," + std::to_string(off.getSExtValue()) + "]";
		}
		std::string r = "[\"ce\"," + esc(ce->getOpcodeName()) + "," + tyS(ce->getType()) + ",[";
		for(unsigned i = 0; i < ce->getNumOperands(); ++i) { if(i) r += ","; r += val(ce->getOperand(i)); }
		return r + "]]";
	}
	return "[\"u\"," + tyS(c->getType()) + "]";
}
static std::string val(const Value* v) {
	if(auto* c = dyn_cast<Constant>(v)) return constant(c);
	if(auto* b = dyn_cast<BasicBlock>(v)) return "[\"b\"," + std::to_string(ids[b]) + "]";
	auto it = ids.find(v);
	if(it == ids.end()) return "[\"?\"]";
	return "[\"v\"," + std::to_string(it->second) + "]";
}
static std::string bb(const BasicBlock* b) { return std::to_string(ids[b]); }

// Functions of the standard library become part of their callers (shorter traces, same semantics);
// functions of nytl and of the witness stay as they are.
static void inlineLibrary(Module& m) {
	for(auto& f : m) {
		if(f.isDeclaration() || f.hasFnAttribute(Attribute::NoInline)) continue;
		auto* sp = f.getSubprogram();
		auto lib = sp && sp->getFile() && (sp->getFile()->getFilename().starts_with("/usr/") || sp->getFile()->getDirectory().starts_with("/usr/"));
		if(!lib && !(f.getName() == "__clang_call_terminate")) continue;
		if(!lib) continue;
		if(!f.hasLinkOnceLinkage() && !f.hasLocalLinkage()) continue;
		f.addFnAttr(Attribute::AlwaysInline);
	}
	PassBuilder pb;
	LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
	pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
	pb.crossRegisterProxies(lam, fam, cam, mam);
	ModulePassManager mpm;
	mpm.addPass(AlwaysInlinerPass(true));
	mpm.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
	mpm.run(m, mam);
}

int main(int argc, char** argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if(!m) { err.print("irdump", errs()); return 2; }
	if(argc > 2 && std::string(argv[2]) == "-inline") inlineLibrary(*m);
	DL = &m->getDataLayout();
	raw_ostream& os = outs();
	for(auto& a : m->aliases())
		os << "{\"k\":\"alias\",\"n\":" << esc(a.getName()) << ",\"t\":" << val(a.getAliasee()) << "}\n";
	for(auto& g : m->globals()) {
		os << "{\"k\":\"g\",\"n\":" << esc(g.getName()) << ",\"d\":" << esc(demangle(g.getName().str()))
			<< ",\"sz\":" << (g.getValueType()->isSized() ? (uint64_t) DL->getTypeAllocSize(g.getValueType()) : 0)
			<< ",\"const\":" << (g.isConstant() ? "true" : "false") << ",\"ty\":" << tyS(g.getValueType());
		if(g.hasInitializer()) os << ",\"init\":" << constant(g.getInitializer());
		os << "}\n";
	}
	for(auto& f : *m) {
		ids.clear();
		int n = 0;
		os << "{\"k\":\"f\",\"n\":" << esc(f.getName()) << ",\"d\":" << esc(demangle(f.getName().str()))
			<< ",\"ret\":" << tyS(f.getReturnType()) << ",\"args\":[";
		bool first = true;
		for(auto& a : f.args()) {
			ids[&a] = n++;
			if(!first) os << ",";
			first = false;
			os << "[" << ids[&a] << "," << tyS(a.getType());
			if(a.hasByValAttr()) os << "," << (uint64_t) DL->getTypeAllocSize(a.getParamByValType());
			os << "]";
		}
		os << "]";
		std::string nn;
		for(auto& a : f.args())
			if(a.hasNonNullAttr(false)) nn += (nn.empty() ? "" : ",") + std::to_string(a.getArgNo());
		if(!nn.empty()) os << ",\"nn\":[" << nn << "]";
		if(auto* sp = f.getSubprogram())
			os << ",\"file\":" << esc((sp->getFile() ? sp->getFile()->getDirectory().str() + "/" + sp->getFile()->getFilename().str() : std::string()))
				<< ",\"fn\":" << esc(sp->getFile() ? sp->getFile()->getFilename() : "") << ",\"line\":" << sp->getLine();
		if(f.doesNotThrow()) os << ",\"nounwind\":true";
		if(f.doesNotReturn()) os << ",\"noreturn\":true";
		if((f.getName().ends_with("D1Ev") || f.getName().ends_with("D2Ev")) && f.arg_size() == 1)
			os << ",\"dtor\":" << f.getArg(0)->getDereferenceableBytes();
		if(f.isDeclaration()) { os << ",\"decl\":true}\n"; continue; }
		int bn = 0;
		for(auto& b : f) ids[&b] = bn++;
		for(auto& b : f) for(auto& i : b) if(!i.getType()->isVoidTy()) ids[&i] = n++;
		os << ",\"blocks\":[";
		bool fb = true;
		for(auto& b : f) {
			if(!fb) os << ",";
			fb = false;
			os << "[";
			bool fi = true;
			for(auto& i : b) {
				if(isa<DbgInfoIntrinsic>(i) || isa<NoAliasScopeDeclInst>(i)) continue;
				if(!fi) os << ",";
				fi = false;
				os << "{\"o\":" << esc(i.getOpcodeName());
				if(!i.getType()->isVoidTy()) os << ",\"r\":" << ids[&i];
				os << ",\"t\":" << tyS(i.getType());
				if(auto dl = i.getDebugLoc()) {
					while(auto* at = dl.getInlinedAt()) dl = DebugLoc(at);
					auto* sc = dyn_cast<DIScope>(dl.getScope());
					os << ",\"l\":[" << esc(sc ? sc->getFilename() : "") << "," << dl.getLine() << "," << dl.getCol() << "]";
				}
				auto ops = [&](unsigned from, unsigned to) {
					os << ",\"a\":[";
					for(unsigned k = from; k < to; ++k) { if(k > from) os << ","; os << val(i.getOperand(k)); }
					os << "]";
				};
				if(auto* br = dyn_cast<BranchInst>(&i)) {
					if(br->isConditional())
						os << ",\"a\":[" << val(br->getCondition()) << "],\"s\":[" << bb(br->getSuccessor(0)) << "," << bb(br->getSuccessor(1)) << "]";
					else os << ",\"a\":[],\"s\":[" << bb(br->getSuccessor(0)) << "]";
				} else if(auto* sw = dyn_cast<SwitchInst>(&i)) {
					os << ",\"a\":[" << val(sw->getCondition()) << "],\"def\":" << bb(sw->getDefaultDest()) << ",\"cases\":[";
					bool fc = true;
					for(auto& c : sw->cases()) {
						if(!fc) os << ",";
						fc = false;
						os << "[\"" << apS(c.getCaseValue()->getValue()) << "\"," << bb(c.getCaseSuccessor()) << "]";
					}
					os << "]";
				} else if(auto* phi = dyn_cast<PHINode>(&i)) {
					os << ",\"in\":[";
					for(unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
						if(k) os << ",";
						os << "[" << bb(phi->getIncomingBlock(k)) << "," << val(phi->getIncomingValue(k)) << "]";
					}
					os << "]";
				} else if(auto* cb = dyn_cast<CallBase>(&i)) {
					os << ",\"f\":" << val(cb->getCalledOperand());
					if(auto* ii = dyn_cast<IntrinsicInst>(&i)) os << ",\"intr\":true";
					os << ",\"a\":[";
					for(unsigned k = 0; k < cb->arg_size(); ++k) {
						if(k) os << ",";
						os << val(cb->getArgOperand(k));
					}
					os << "],\"at\":[";
					for(unsigned k = 0; k < cb->arg_size(); ++k) { if(k) os << ","; os << tyS(cb->getArgOperand(k)->getType()); }
					os << "]";
					bool bv = false;
					for(unsigned k = 0; k < cb->arg_size(); ++k) bv |= cb->isByValArgument(k);
					if(bv) {
						os << ",\"bv\":[";
						for(unsigned k = 0; k < cb->arg_size(); ++k) { if(k) os << ",";
							os << (cb->isByValArgument(k) ? (uint64_t) DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
						os << "]";
					}
					if(cb->doesNotThrow()) os << ",\"nt\":true";
					if(auto* inv = dyn_cast<InvokeInst>(&i))
						os << ",\"s\":[" << bb(inv->getNormalDest()) << "," << bb(inv->getUnwindDest()) << "]";
				} else if(auto* lp = dyn_cast<LandingPadInst>(&i)) {
					os << ",\"cleanup\":" << (lp->isCleanup() ? "true" : "false") << ",\"cl\":[";
					for(unsigned k = 0; k < lp->getNumClauses(); ++k) {
						if(k) os << ",";
						os << "[" << (lp->isCatch(k) ? "\"catch\"" : "\"filter\"") << "," << val(lp->getClause(k)) << "]";
					}
					os << "]";
				} else if(auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
					APInt coff(64, 0);
					MapVector<Value*, APInt> vo;
					if(!cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, coff)) { os << ",\"bad\":1"; }
					os << ",\"a\":[" << val(gep->getPointerOperand()) << "],\"off\":" << coff.getSExtValue() << ",\"var\":[";
					bool fv = true;
					for(auto& p : vo) {
						if(!fv) os << ",";
						fv = false;
						os << "[" << val(p.first) << "," << p.second.getSExtValue() << "," << tyS(p.first->getType()) << "]";
					}
					os << "]" << ",\"inb\":" << (gep->isInBounds() ? 1 : 0);
				} else if(auto* al = dyn_cast<AllocaInst>(&i)) {
					os << ",\"sz\":" << (uint64_t) DL->getTypeAllocSize(al->getAllocatedType()) << ",\"cnt\":" << val(al->getArraySize())
						<< ",\"aty\":" << tyS(al->getAllocatedType());
				} else if(auto* st = dyn_cast<StoreInst>(&i)) {
					ops(0, 2);
					os << ",\"vt\":" << tyS(st->getValueOperand()->getType()) << ",\"sz\":" << szOf(st->getValueOperand()->getType());
				} else if(isa<LoadInst>(i)) {
					ops(0, 1);
					os << ",\"sz\":" << szOf(i.getType());
				} else if(auto* cmp = dyn_cast<CmpInst>(&i)) {
					ops(0, 2);
					os << ",\"p\":" << esc(CmpInst::getPredicateName(cmp->getPredicate())) << ",\"ot\":" << tyS(cmp->getOperand(0)->getType());
				} else if(auto* ev = dyn_cast<ExtractValueInst>(&i)) {
					ops(0, 1);
					os << ",\"idx\":[";
					for(unsigned k = 0; k < ev->getNumIndices(); ++k) { if(k) os << ","; os << ev->getIndices()[k]; }
					os << "]";
				} else if(auto* iv = dyn_cast<InsertValueInst>(&i)) {
					ops(0, 2);
					os << ",\"idx\":[";
					for(unsigned k = 0; k < iv->getNumIndices(); ++k) { if(k) os << ","; os << iv->getIndices()[k]; }
					os << "]";
				} else if(auto* sv = dyn_cast<ShuffleVectorInst>(&i)) {
					ops(0, 2);
					os << ",\"mask\":[";
					auto mk = sv->getShuffleMask();
					for(unsigned k = 0; k < mk.size(); ++k) { if(k) os << ","; os << mk[k]; }
					os << "]";
				} else {
					ops(0, i.getNumOperands());
					if(isa<CastInst>(i)) os << ",\"ot\":" << tyS(i.getOperand(0)->getType());
					if(auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) {
						if(ob->hasNoSignedWrap()) os << ",\"nsw\":1";
						if(ob->hasNoUnsignedWrap()) os << ",\"nuw\":1";
					}
					if(auto* rmw = dyn_cast<AtomicRMWInst>(&i)) os << ",\"rmw\":" << esc(AtomicRMWInst::getOperationName(rmw->getOperation()));
				}
				os << "}";
			}
			os << "]";
		}
		os << "]}\n";
	}
	return 0;
}
