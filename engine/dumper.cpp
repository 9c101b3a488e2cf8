// irdump: links bitcode files, keeps what the proof functions reach, normalises it with a fixed list of LLVM passes
// and writes it as JSON for the VC generator (vcgen.py).  GEPs are lowered to byte offsets; loops are listed per function.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <vector>
using namespace llvm;

static raw_ostream* OSP;
#define OS (*OSP)
static const DataLayout* DL;
static std::set<const GlobalValue*> Seen;
static std::vector<const GlobalValue*> Work;

static void Need(const GlobalValue* g) { if (Seen.insert(g).second) Work.push_back(g); }

static std::string Esc(StringRef s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

static std::string Ty(const Type* t)
{
	if (t->isVoidTy()) return "\"void\"";
	if (auto* i = dyn_cast<IntegerType>(t)) return std::to_string(i->getBitWidth());
	if (t->isPointerTy()) return "\"p\"";
	if (t->isFloatTy()) return "\"f32\"";
	if (t->isDoubleTy()) return "\"f64\"";
	if (t->isX86_FP80Ty()) return "\"f80\"";
	if (auto* s = dyn_cast<StructType>(t))
	{
		if (!s->isSized()) return "\"opaque\"";
		std::string r = "[\"s\"";
		const StructLayout* l = DL->getStructLayout(const_cast<StructType*>(s));
		for (unsigned i = 0; i < s->getNumElements(); ++i)
			r += ",[" + std::to_string((uint64_t)l->getElementOffset(i)) + "," + Ty(s->getElementType(i)) + "]";
		return r + "]";
	}
	if (auto* a = dyn_cast<ArrayType>(t))
	{
		std::string r = "[\"s\"";
		uint64_t es = DL->getTypeAllocSize(a->getElementType());
		if (a->getNumElements() > 4096) return "\"bigarray\"";
		for (unsigned i = 0; i < a->getNumElements(); ++i)
			r += ",[" + std::to_string(es * i) + "," + Ty(a->getElementType()) + "]";
		return r + "]";
	}
	if (auto* v = dyn_cast<FixedVectorType>(t))
		return "[\"vec\"," + std::to_string(v->getNumElements()) + "," + Ty(v->getElementType()) + "]";
	return "\"other\"";
}

static uint64_t SizeOf(const Type* t)
{
	if (!const_cast<Type*>(t)->isSized()) return 0;
	return DL->getTypeStoreSize(const_cast<Type*>(t));
}

typedef std::map<const Value*, int> Ids;
static std::string Val(const Value* v, const Ids& ids);

static std::string APStr(const APInt& a) { SmallString<64> s; a.toString(s, 10, false); return std::string(s.str()); }

static std::string ConstVal(const Constant* c)
{
	static Ids empty;
	if (auto* ci = dyn_cast<ConstantInt>(c)) return "[\"i\"," + APStr(ci->getValue()) + "]";
	if (isa<ConstantPointerNull>(c)) return "[\"i\",0]";
	if (isa<UndefValue>(c)) return "[\"u\"," + Ty(c->getType()) + "]";
	if (auto* f = dyn_cast<ConstantFP>(c)) return "[\"f\"," + Ty(c->getType()) + "," + APStr(f->getValueAPF().bitcastToAPInt()) + "]";
	if (auto* g = dyn_cast<GlobalAlias>(c)) return ConstVal(g->getAliasee());
	if (auto* g = dyn_cast<GlobalValue>(c)) { Need(g); return "[\"g\",\"" + Esc(g->getName()) + "\"]"; }
	if (auto* e = dyn_cast<DSOLocalEquivalent>(c)) return ConstVal(e->getGlobalValue());
	if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + Ty(c->getType()) + "]";
	if (auto* a = dyn_cast<ConstantAggregate>(c))
	{
		std::string r = "[\"a\"";
		for (unsigned i = 0; i < a->getNumOperands(); ++i) r += "," + ConstVal(a->getOperand(i));
		return r + "]";
	}
	if (auto* a = dyn_cast<ConstantDataSequential>(c))
	{
		std::string r = "[\"a\"";
		for (unsigned i = 0; i < a->getNumElements(); ++i) r += "," + ConstVal(a->getElementAsConstant(i));
		return r + "]";
	}
	if (auto* e = dyn_cast<ConstantExpr>(c))
	{
		if (auto* gep = dyn_cast<GEPOperator>(e))
		{
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(*DL, off))
				return "[\"+\"," + ConstVal(cast<Constant>(gep->getPointerOperand())) + "," + APStr(off) + "]";
		}
		std::string r = "[\"e\",\"" + std::string(e->getOpcodeName()) + "\"," + Ty(e->getType());
		if (e->isCompare()) r += ",\"" + CmpInst::getPredicateName((CmpInst::Predicate)e->getPredicate()).str() + "\"";
		r += "," + Ty(e->getOperand(0)->getType());
		for (unsigned i = 0; i < e->getNumOperands(); ++i) r += "," + ConstVal(e->getOperand(i));
		return r + "]";
	}
	return "[\"?\"]";
}

static std::string Val(const Value* v, const Ids& ids)
{
	if (auto* c = dyn_cast<Constant>(v)) return ConstVal(c);
	auto it = ids.find(v);
	if (it != ids.end()) return std::to_string(it->second);
	if (isa<MetadataAsValue>(v)) return "[\"md\"]";
	if (isa<InlineAsm>(v)) return "[\"asm\"]";
	return "[\"?\"]";
}

static void FlattenInit(const Constant* c, uint64_t off, bool& first)
{
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;	// object default is zero
	if (auto* s = dyn_cast<StructType>(t))
	{
		const StructLayout* l = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); ++i)
			FlattenInit(c->getAggregateElement(i), off + (uint64_t)l->getElementOffset(i), first);
		return;
	}
	if (auto* a = dyn_cast<ArrayType>(t))
	{
		uint64_t es = DL->getTypeAllocSize(a->getElementType());
		for (unsigned i = 0; i < a->getNumElements(); ++i)
			FlattenInit(c->getAggregateElement(i), off + es * i, first);
		return;
	}
	if (t->isVectorTy()) { FixedVectorType* vt = cast<FixedVectorType>(t); uint64_t es = DL->getTypeAllocSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); ++i) FlattenInit(c->getAggregateElement(i), off + es * i, first); return; }
	OS << (first ? "" : ",") << "[" << off << "," << SizeOf(t) << "," << Ty(t) << "," << ConstVal(c) << "]";
	first = false;
}

static void DumpFunction(const Function& cf, bool declOnly)
{
	Function& F = const_cast<Function&>(cf);
	OS << "{\"n\":\"" << Esc(F.getName()) << "\",\"d\":\"" << Esc(demangle(F.getName().str())) << "\",\"rt\":" << Ty(F.getReturnType()) << ",\"va\":" << (F.isVarArg() ? 1 : 0);
	Ids ids; int n = 0;
	OS << ",\"args\":[";
	bool first = true;
	for (auto& a : F.args())
	{
		ids[&a] = n;
		OS << (first ? "" : ",") << "[" << n++ << "," << Ty(a.getType()) << "," << (a.hasByValAttr() ? SizeOf(a.getParamByValType()) : 0) << "]";
		first = false;
	}
	OS << "]";
	if (F.isDeclaration() || declOnly) { OS << "}"; return; }
	for (auto& bb : F) for (auto& i : bb) if (!i.getType()->isVoidTy()) ids[&i] = n++;
	std::map<const BasicBlock*, int> bids; int bn = 0;
	ReversePostOrderTraversal<Function*> rpot(&F);
	for (BasicBlock* bb : rpot) bids[bb] = bn++;
	DominatorTree DT(F); LoopInfo LI(DT);
	OS << ",\"nv\":" << n << ",\"blocks\":[";
	bool fb = true;
	for (BasicBlock* bb : rpot)
	{
		OS << (fb ? "[" : ",\n[") ; fb = false;
		bool fi = true;
		for (auto& I : *bb)
		{
			if (isa<DbgInfoIntrinsic>(I)) continue;
			if (auto* ii = dyn_cast<IntrinsicInst>(&I))
			{
				auto id = ii->getIntrinsicID();
				if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl
					|| id == Intrinsic::assume || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing
					|| id == Intrinsic::stacksave || id == Intrinsic::stackrestore || id == Intrinsic::prefetch || id == Intrinsic::var_annotation) 
				{
					if (I.getType()->isVoidTy()) continue;
				}
			}
			OS << (fi ? "" : ",\n"); fi = false;
			int id = I.getType()->isVoidTy() ? -1 : ids[&I];
			auto V = [&](const Value* v) { return Val(v, ids); };
			unsigned line = 0; std::string file;
			if (auto dl = I.getDebugLoc()) { line = dl.getLine(); }
			OS << "[\"" << I.getOpcodeName() << "\"," << id << "," << Ty(I.getType()) << "," << line;
			if (auto* x = dyn_cast<AllocaInst>(&I))
				OS << "," << DL->getTypeAllocSize(x->getAllocatedType()) << "," << V(x->getArraySize());
			else if (auto* x = dyn_cast<LoadInst>(&I))
				OS << "," << V(x->getPointerOperand()) << "," << SizeOf(x->getType());
			else if (auto* x = dyn_cast<StoreInst>(&I))
				OS << "," << V(x->getPointerOperand()) << "," << V(x->getValueOperand()) << "," << SizeOf(x->getValueOperand()->getType()) << "," << Ty(x->getValueOperand()->getType());
			else if (auto* x = dyn_cast<GetElementPtrInst>(&I))
			{
				MapVector<Value*, APInt> vo; APInt co(64, 0);
				bool ok = cast<GEPOperator>(x)->collectOffset(*DL, 64, vo, co);
				OS << "," << (ok ? 1 : 0) << "," << V(x->getPointerOperand()) << "," << APStr(co) << ",[";
				bool f = true;
				for (auto& p : vo) { OS << (f ? "" : ",") << "[" << V(p.first) << "," << APStr(p.second) << "," << Ty(p.first->getType()) << "]"; f = false; }
				OS << "]";
			}
			else if (auto* x = dyn_cast<CmpInst>(&I))
				OS << ",\"" << CmpInst::getPredicateName(x->getPredicate()).str() << "\"," << Ty(x->getOperand(0)->getType()) << "," << V(x->getOperand(0)) << "," << V(x->getOperand(1));
			else if (auto* x = dyn_cast<PHINode>(&I))
			{
				OS << ",[";
				for (unsigned i = 0; i < x->getNumIncomingValues(); ++i)
					OS << (i ? "," : "") << "[" << (bids.count(x->getIncomingBlock(i)) ? bids[x->getIncomingBlock(i)] : -1) << "," << V(x->getIncomingValue(i)) << "]";
				OS << "]";
			}
			else if (auto* x = dyn_cast<BranchInst>(&I))
			{
				if (x->isConditional()) OS << "," << V(x->getCondition()) << "," << bids[x->getSuccessor(0)] << "," << bids[x->getSuccessor(1)];
				else OS << "," << bids[x->getSuccessor(0)];
			}
			else if (auto* x = dyn_cast<SwitchInst>(&I))
			{
				OS << "," << V(x->getCondition()) << "," << Ty(x->getCondition()->getType()) << "," << bids[x->getDefaultDest()] << ",[";
				bool f = true;
				for (auto c : x->cases()) { OS << (f ? "" : ",") << "[" << APStr(c.getCaseValue()->getValue()) << "," << bids[c.getCaseSuccessor()] << "]"; f = false; }
				OS << "]";
			}
			else if (auto* x = dyn_cast<CallBase>(&I))
			{
				OS << "," << V(x->getCalledOperand()) << ",[";
				for (unsigned i = 0; i < x->arg_size(); ++i)
					OS << (i ? "," : "") << "[" << V(x->getArgOperand(i)) << "," << Ty(x->getArgOperand(i)->getType()) << "," << (x->isByValArgument(i) ? SizeOf(x->getParamByValType(i)) : 0) << "]";
				OS << "]";
				if (auto* iv = dyn_cast<InvokeInst>(x)) OS << "," << bids[iv->getNormalDest()] << "," << bids[iv->getUnwindDest()];
			}
			else if (auto* x = dyn_cast<LandingPadInst>(&I))
			{
				OS << "," << (x->isCleanup() ? 1 : 0) << ",[";
				for (unsigned i = 0; i < x->getNumClauses(); ++i)
					OS << (i ? "," : "") << "[" << (x->isCatch(i) ? "\"catch\"" : "\"filter\"") << "," << ConstVal(x->getClause(i)) << "]";
				OS << "]";
			}
			else if (auto* x = dyn_cast<ExtractValueInst>(&I))
			{
				OS << "," << V(x->getAggregateOperand()) << ",[";
				for (unsigned i = 0; i < x->getNumIndices(); ++i) OS << (i ? "," : "") << x->getIndices()[i];
				OS << "]";
			}
			else if (auto* x = dyn_cast<InsertValueInst>(&I))
			{
				OS << "," << V(x->getAggregateOperand()) << "," << V(x->getInsertedValueOperand()) << ",[";
				for (unsigned i = 0; i < x->getNumIndices(); ++i) OS << (i ? "," : "") << x->getIndices()[i];
				OS << "]";
			}
			else if (auto* x = dyn_cast<AtomicRMWInst>(&I))
				OS << ",\"" << AtomicRMWInst::getOperationName(x->getOperation()).str() << "\"," << V(x->getPointerOperand()) << "," << V(x->getValOperand()) << "," << SizeOf(x->getType());
			else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I))
				OS << "," << V(x->getPointerOperand()) << "," << V(x->getCompareOperand()) << "," << V(x->getNewValOperand()) << "," << SizeOf(x->getNewValOperand()->getType()) << "," << Ty(x->getNewValOperand()->getType());
			else if (isa<CastInst>(&I))
				OS << "," << Ty(I.getOperand(0)->getType()) << "," << V(I.getOperand(0));
			else
				for (unsigned i = 0; i < I.getNumOperands(); ++i) OS << "," << V(I.getOperand(i));
			OS << "]";
		}
		OS << "]";
	}
	OS << "],\"loops\":[";
	bool fl = true;
	for (Loop* L : LI.getLoopsInPreorder())
	{
		OS << (fl ? "" : ",") << "{\"h\":" << bids[L->getHeader()] << ",\"b\":["; fl = false;
		bool f = true;
		for (BasicBlock* b : L->blocks()) { OS << (f ? "" : ",") << bids[b]; f = false; }
		unsigned line = 0; if (L->getStartLoc()) line = L->getStartLoc().getLine();
		OS << "],\"line\":" << line << "}";
	}
	OS << "]";
	if (auto* sp = F.getSubprogram()) OS << ",\"file\":\"" << Esc(sp->getFilename()) << "\",\"line\":" << sp->getLine();
	OS << "}";
}

int main(int argc, char** argv)
{
	// irdump OUT.json INTERCEPTS.txt PASSES BC...
	LLVMContext ctx; SMDiagnostic err;
	std::unique_ptr<Module> M;
	for (int i = 4; i < argc; ++i)
	{
		auto m = parseIRFile(argv[i], err, ctx);
		if (!m) { err.print("irdump", errs()); return 2; }
		if (!M) M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
	}
	std::string rx;
	{
		std::ifstream f(argv[2]); std::string l;
		while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; rx += (rx.empty() ? "" : "|") + ("(" + l + ")"); }
	}
	Regex R(rx); std::string e;
	if (!rx.empty() && !R.isValid(e)) { errs() << "bad regex " << e << "\n"; return 2; }
	std::set<std::string> cut;
	std::map<std::string, int> total;
	for (auto& F : *M)
	{
		F.removeFnAttr(Attribute::OptimizeNone);
		std::string d = demangle(F.getName().str());
		bool proof = F.getName().starts_with("vcproof__") || F.getName().starts_with("vckeep__");
		if (proof || F.getName().starts_with("vc_") || (!rx.empty() && R.match(d)))
		{
			F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint); F.addFnAttr(Attribute::NoInline);
			if (!proof) cut.insert(F.getName().str());
			if (!proof && !F.isDeclaration() && !F.getName().starts_with("vc_")) { F.deleteBody(); F.setComdat(nullptr); }
			if (F.getName().starts_with("vc_") && F.isDeclaration()) F.addFnAttr(Attribute::NoInline);
		}
	}
	// internalize everything but the proofs, then clean up
	for (auto& F : *M)
		if (!F.isDeclaration() && !F.getName().starts_with("vcproof__") && !F.getName().starts_with("vckeep__")) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); }
	for (auto& G : M->globals())
		if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setComdat(nullptr); if (G.hasLinkOnceLinkage() || G.hasWeakLinkage() || G.hasAvailableExternallyLinkage()) G.setLinkage(GlobalValue::ExternalLinkage); }
	{
		PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		if (auto er = PB.parsePassPipeline(MPM, argv[3])) { errs() << "bad pipeline: " << toString(std::move(er)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}
	if (verifyModule(*M, &errs())) { errs() << "module verification failed\n"; return 2; }
	DL = &M->getDataLayout();
	std::error_code ec; raw_fd_ostream os(argv[1], ec); OSP = &os;
	os << "{\"funcs\":[";
	for (auto& F : *M) if (F.getName().starts_with("vcproof__") || F.getName().starts_with("vckeep__")) Need(&F);
	std::string globals; bool ff = true, fg = true;
	std::string gbuf; raw_string_ostream gos(gbuf);
	// static constructors
	if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (unsigned i = 0; i < a->getNumOperands(); ++i)
			if (auto* f = dyn_cast<Function>(a->getOperand(i)->getAggregateElement(1u)->stripPointerCasts()))
				if (const char* want = getenv("VC_INIT"))		// only those a harness asks for
				{
					std::istringstream ws(want); std::string w;
					while (ws >> w) if (f->getName().starts_with("_GLOBAL__sub_I_" + w)) Need(f);
				}
	while (!Work.empty())
	{
		const GlobalValue* g = Work.back(); Work.pop_back();
		if (auto* F = dyn_cast<Function>(g))
		{
			os << (ff ? "" : ",\n"); ff = false;
			DumpFunction(*F, cut.count(F->getName().str()));
		}
		else if (auto* G = dyn_cast<GlobalVariable>(g))
		{
			gos << (fg ? "" : ",\n"); fg = false;
			gos << "{\"n\":\"" << Esc(G->getName()) << "\",\"size\":" << (G->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G->getValueType()) : 0) << ",\"const\":" << G->isConstant() << ",\"ext\":" << G->isDeclaration() << ",\"tls\":" << G->isThreadLocal() << ",\"cells\":[";
			if (G->hasInitializer()) { bool f = true; OSP = &gos; FlattenInit(G->getInitializer(), 0, f); OSP = &os; }
			gos << "]}";
		}
	}
	gos.flush();
	os << "],\n\"globals\":[" << gbuf << "]}\n";
	return 0;
}
